#!/usr/bin/env python3
"""Runs the check of one property: model checking of its specification,
conformance of the code in /repo's working tree with it, validation by TLC of
runs recorded from the code.  Standard library only.

  check.py --property C01          (VERIF_SEED, VERIF_TIER in the environment)
  check.py --replay replay/....json
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC, HARNESS = VERIF + "/spec", VERIF + "/harness"
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAPS = "/opt/veriftools/tlapm/lib/tlapm/stdlib"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAINS = "/opt/veriftools/go1.%s/bin/go"
RELEASES = {25: "25.14", 26: "26.10", 27: "27.3"}
GO = TOOLCHAINS % RELEASES[27]
OLDEST = TOOLCHAINS % RELEASES[25]
UCD17 = SPEC + "/data/ucd17.json"
CHARPROPS = "textseg/internal/charprops"


class Infra(Exception):
    """The check cannot give an answer."""


class Unbuildable(Infra):
    """A driver does not compile with the code."""


class Stop(Exception):
    """A violation was found; what remains need not run."""


def log(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.models, self.stats, self.samples, self.violations, self.notes = [], {}, [], [], []
        self.tables_lock = threading.Lock()
        self.tlc_slots = threading.Semaphore(4)
        self.n = 0

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, q, t):
        return t if self.thorough else q

    def path(self, name):
        return os.path.join(self.work, name)

    def fresh(self, name):
        with self.lock:
            self.n += 1
            p = self.path("%s%d" % (name, self.n))
        os.mkdir(p)
        return p

    # ------------------------------------------------------------ processes
    def sh(self, cmd, cwd=None, env=None, timeout=800, check=True):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO", "JAVA"))}
        e.update(env or {})
        try:
            p = subprocess.Popen(cmd, cwd=cwd or self.work, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, start_new_session=True)
            out, err = (b.decode("utf-8", "replace") for b in p.communicate(timeout=timeout))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)  # with all that it started
            p.wait()
            raise Infra("timed out: %s" % " ".join(cmd[:6]))
        if check and p.returncode != 0:
            raise Infra("failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(cmd[:8]), out[-3000:], err[-3000:]))
        return p.returncode, out, err

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, config, env=None, workers=2, args=(), subst=None, heap="3g", timeout=800):
        """Returns (status, generated, distinct, output); status is "ok" or the violated property."""
        meta = self.fresh("tlc")
        cfg = os.path.join(SPEC, config)
        if subst:
            s = open(cfg).read()
            for k, v in subst.items():
                s, n = re.subn(r"(?m)^(.*\b%s\s*=\s*)\S+\s*$" % k, lambda m: m[1] + str(v), s)
                if n != 1:
                    raise Infra("%s: constant %s" % (config, k))
            cfg = meta + "/" + config
            open(cfg, "w").write(s)
        with self.tlc_slots:
            rc, out, err = self.sh(
                ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
                 "-noGenerateSpecTE", "-metadir", meta + "/states", "-workers", str(workers), *args, "-config", cfg, module + ".tla"],
                cwd=SPEC, env=env, timeout=timeout, check=False)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if "No error has been found." in out or ("-simulate" in args and rc == 0):
            return "ok", gen, dist, out
        v = re.search(r"(?:Invariant|Action property|Temporal properties) ?(\S*)? ?(?:is|were) violated", out)
        if v:
            return v[1] or "liveness", gen, dist, out
        raise Infra("TLC on %s (%s):\n%s\n%s" % (module, config, out[-3000:], err[-1000:]))

    def model(self, module, config=None, want="ok", count=True, **kw):
        """A model-checking run of the specification itself; want is "ok", or the
        properties of which one must be refuted (negative control)."""
        config = config or module + ".cfg"
        st, gen, dist, out = self.tlc(module, config, **kw)
        if (st == "ok") != (want == "ok") or (want != "ok" and st not in want.split()):
            raise Infra("specification %s (%s): %s, expected %s\n%s" % (module, config, st, want, out[-2500:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({"model": config[:-4], "result": "holds" if st == "ok" else "refuted (negative control): " + st,
                                "distinct_states": dist, "states_generated": gen, **({"constants": kw["subst"]} if kw.get("subst") else {})})
        return out

    def lines(self, out, tag, dest):
        n = 0
        with open(dest, "w") as f:
            for l in out.splitlines():
                if l.startswith('"%s ' % tag):
                    f.write(json.loads(l)[len(tag) + 1:] + "\n")
                    n += 1
        if n == 0:
            raise Infra("nothing exported by TLC")
        return n

    def prove(self, module):
        """Has the proof system check the theorems of a module, from nothing (thorough tier)."""
        if not self.thorough:
            return
        d = self.fresh("proof")
        for f in glob.glob(SPEC + "/*.tla"):
            shutil.copy(f, d)
        rc, out, err = self.sh(["tlapm", "--nofp", "--stretch", "5", "--threads", "8", module + ".tla"], cwd=d, timeout=2400, check=False)
        m = re.search(r"All (\d+) obligations? proved", out + err)
        if rc != 0 or not m:
            raise Infra("the proofs of %s do not go through:\n%s" % (module, (out + err)[-3000:]))
        with self.lock:
            self.models.append({"proof": module, "result": "proved", "obligations": int(m[1])})

    def tables(self):
        with self.tables_lock:
            if not hasattr(self, "_tables"):
                t = self.path("tables.json")
                self.model("Export", env={"TABLES_OUT": t})
                self._tables = t
        return self._tables

    # ------------------------------------------------------------------- Go
    def goenv(self, **kw):
        e = {"GOFLAGS": "", "GOWORK": "off", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOENV": "off", "GO111MODULE": "on", "GOSUMDB": "off",
             "CGO_ENABLED": "0", "HOME": os.environ.get("HOME", "/root"), "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
             "GOCACHE": os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build")}
        e.update(kw)
        return e

    def build(self, name, pkg=None, repo=None, race=False, go=GO, work=None, extra_files=(), module="", dirs=None, goarch=None):
        """Builds a driver as a package inside the repository's module, by overlay."""
        repo = repo or REPO
        pkg = pkg or "textseg/internal/verif" + name
        ov = {}
        for d in dirs or [HARNESS + "/" + name, HARNESS + "/common"]:
            for f in sorted(glob.glob(d + "/*.go")):
                ov["%s/%s/%s" % (repo, pkg, os.path.basename(f))] = f
        for dst, src in extra_files:
            ov["%s/%s" % (repo, dst)] = src
        d = self.fresh("build-" + name)
        json.dump({"Replace": ov}, open(d + "/overlay.json", "w"))
        env = self.goenv(**({"GOWORK": work} if work else {}), **({"CGO_ENABLED": "1"} if race else {}), **({"GOARCH": goarch} if goarch else {}))
        rel = "./" + os.path.relpath(pkg, module) if module else "./" + pkg
        cmd = [go, "build", "-buildvcs=false", *(["-race"] if race else []), "-overlay", d + "/overlay.json", "-o", d + "/bin", rel]
        rc, out, err = self.sh(cmd, cwd=os.path.join(repo, module), env=env, timeout=600, check=False)
        if rc != 0:
            raise Unbuildable("driver %s does not build:\n%s" % (name, err[-3000:]))
        return d + "/bin"

    def build_or(self, name, otherwise):
        """Builds a driver that uses internal functions; should they have gone, what stands in for it."""
        try:
            return self.build(name)
        except Unbuildable as e:
            rc, out, err = self.sh([GO, "build", "-buildvcs=false", "./..."], cwd=REPO, env=self.goenv(), check=False)
            if rc != 0:
                raise
            with self.lock:
                self.notes.append("internal functions are not as the driver knows them: " + str(e)[-500:])
            return otherwise()

    def drive(self, binary, cmd, extra=None, name=None, tier=None, race=False, timeout=780, ignore_stats=(), goarch=None):
        """Runs a driver; its violations end the check."""
        name = (name or cmd) + ("-" + goarch if goarch else "")
        out = self.path(name + ".out.json")
        a = [binary, "-property", self.prop, "-tier", tier or self.tier, "-seed", str(self.seed + (500 if goarch else 0)), "-out", out, "-tables", self.tables(), "-ucd", UCD17]
        if extra is not None:
            a += ["-extra", extra if isinstance(extra, str) else json.dumps(extra)]
        env = {"GOTRACEBACK": "all", "GORACE": "halt_on_error=1 exitcode=66", "GOMEMLIMIT": "2GiB" if goarch else "12GiB"}
        rc, so, se = self.sh(a + [cmd], env=env, timeout=timeout, check=False)
        if rc != 0:
            crash = None if goarch and re.search("out of memory|cannot allocate memory", se) else self.crash(se, race)
            if crash is None:
                raise Infra("driver %s exits with %d:\n%s\n%s" % (name, rc, se[:3000], so[-500:]))
            self.violate({"property": self.prop, "kind": crash[0], "detail": crash[1], "extra": {"stderr": se[:6000]}})
        r = json.load(open(out))
        with self.lock:
            for k, v in (r["stats"] or {}).items():
                if k not in ignore_stats:
                    self.stats[k] = self.stats.get(k, 0) + v
            self.samples += (r["samples"] or [])
        for v in r["violations"] or []:
            if goarch:
                v["detail"] = "[GOARCH=%s] %s" % (goarch, v["detail"])
            self.violations.append(v)
        if self.violations:
            raise Stop()
        return out + ".trace.ndjson"

    def narrow(self, build, cmd, old=True, **kw):
        """The same driver once more, with other random choices, where integers have 32 bits, by the oldest Go release supported."""
        go = OLDEST if old and os.path.exists(OLDEST) else GO
        try:
            try:
                b = build(goarch="386", go=go)
            except Infra:
                if go == GO:
                    raise
                self.notes.append("the driver does not build with " + go)
                go = GO
                b = build(goarch="386")
            self.drive(b, cmd, goarch="386", **kw)
        except (Infra, OSError) as e:
            self.notes.append("no run with 32-bit integers: " + str(e)[-500:])
            return
        with self.lock:
            for k in ["drivers_run_with_32_bit_integers"] + (["drivers_run_by_go1.25"] if go == OLDEST else []):
                self.stats[k] = self.stats.get(k, 0) + 1

    @staticmethod
    def crash(stderr, race):
        """A crash of the process that is the fault of the code under test."""
        if "WARNING: DATA RACE" in stderr:
            m = re.search(r"WARNING: DATA RACE(.*?)={10}", stderr + "==========", re.S)
            if re.search(r"go-textseg/(v17|autoversion)/textseg(?!/internal/verif)", m[1] if m else stderr):
                return "data race", "the race detector reports a data race in a concurrent use of the scanner"
            return None
        m = re.search(r"^(fatal error: .*|panic: .*|unexpected fault address.*|SIGSEGV.*)$", stderr, re.M)
        if m and re.search(r"go-textseg/(v17|autoversion)/textseg(?!/internal/verif|/verif)[\w/]*\.", stderr):
            return "crash", "the process running the scanner dies: " + m[1][:300]
        return None

    # ---------------------------------------------------------------- traces
    def validate(self, trace, module, env=None, what="recorded run", judged=None, workers=1, steps=None):
        """TLC decides whether a trace is allowed by the specification."""
        events = [l for l in open(trace)]
        e = {"TRACE": trace, "PROP": self.prop, "UCD_JSON": UCD17}
        e.update(env or {})
        st, gen, dist, out = self.tlc(module, module + ".cfg", env=e, workers=workers, heap="4g")
        n = judged if judged is not None else sum(1 for l in events if re.search(r'"ev":"(open|call|begin|utf8|select|classify|return|dataset)"', l))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += max(n, 1)
            self.stats["trace_events_checked_by_tlc"] = self.stats.get("trace_events_checked_by_tlc", 0) + max(dist - 1, 0)
            self.stats.pop("trace_events", None)
        if st == "ok" and dist == (steps or len(events)) + 1:
            return
        why = "the event is not a step of the specification"
        at = dist - 1
        if st != "ok":
            m = re.findall(r'^/\\ bad = "(.*)"', out, re.M)
            why = m[-1] if m else st
            at = dist - 2
        if steps:  # not one event a step
            at = int((re.findall(r"^/\\ r = (\d+)", out, re.M) or [1])[-1]) - 1
        if why.startswith("HARNESS"):
            raise Infra("trace of %s: %s" % (self.prop, why))
        keep = self.path("rejected.ndjson")
        shutil.copy(trace, keep)
        ev = events[at].strip() if 0 <= at < len(events) else ""
        self.violate({"property": self.prop, "kind": "trace", "detail": "%s is not allowed by %s: %s (event %d)" % (what, module, why, at + 1),
                      "extra": {"event": ev[:4000], "trace": keep}})

    def selftest(self, module, prop=None):
        """The trace specification must accept the good and reject the bad sample trace."""
        for kind in ("good", "bad"):
            f = "%s/selftest/%s%s_%s.ndjson" % (SPEC, module, "_" + prop if prop else "", kind)
            st, gen, dist, out = self.tlc(module, module + ".cfg", env={"TRACE": f, "PROP": prop or self.prop, "UCD_JSON": UCD17}, workers=1)
            n = sum(1 for _ in open(f))
            accepted = st == "ok" and dist == n + 1
            if accepted != (kind == "good"):
                raise Infra("self-test: %s %s the %s trace %s\n%s" % (module, "accepts" if accepted else "rejects", kind, f, out[-1500:]))
        with self.lock:
            self.stats["trace_checker_selftests"] = self.stats.get("trace_checker_selftests", 0) + 2

    def violate(self, v):
        self.violations.append(v)
        raise Stop()

    # -------------------------------------------------------------- scheduling
    def all(self, *jobs):
        """Runs the jobs at the same time; a violation wins over a failure of the machinery."""
        pool = cf.ThreadPoolExecutor(len(jobs))
        fs = [pool.submit(j) for j in jobs]
        cf.wait(fs)
        pool.shutdown()
        errs = [f.exception() for f in fs if f.exception()]
        for t in (Stop, Infra, Exception):
            for e in errs:
                if isinstance(e, t):
                    raise e
        return [f.result() for f in fs]

    def copy_repo(self):
        d = self.fresh("copy") + "/repo"
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git"), symlinks=True)
        return d

    @staticmethod
    def generator(repo):
        """What go generate runs to make the table."""
        for f in sorted(glob.glob("%s/%s/*.go" % (repo, CHARPROPS))):
            m = re.search(r"(?m)^//go:generate go run (\S.*?)\s*$", open(f).read())
            if m and not re.search(r"[\"'$-]", m[1]):
                return m[1].split()
        return ["generate.go"]

    # --------------------------------------------------------------- the end
    def finish(self, level, error=None):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "wall_s": round(wall, 1), "violations": len(self.violations),
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "models": self.models, "conformance": self.stats, "samples": self.samples[:12] or ["none"], **({"notes": self.notes} if self.notes else {})},
              "assumptions": ASSUMPTIONS.get(self.prop, []) + ["TLC's fingerprinting; the Go compiler and runtime; the harness code"]}
        if error:
            ev["coverage"]["explanation"] = "The check could not give an answer: " + error[:2000]
        b = json.dumps(ev, indent=1, ensure_ascii=True)
        if len(b) > 60000:
            ev["coverage"]["samples"] = [json.dumps(s)[:800] for s in ev["coverage"]["samples"]]
            b = json.dumps(ev, indent=1)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.tmp" % self.prop
        open(tmp, "w").write(b + "\n")
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.prop)

    def report(self):
        d = VERIF + "/replay"
        os.makedirs(d, exist_ok=True)
        f = "%s/%s-%s-seed%d.json" % (d, self.prop, self.tier, self.seed)
        for v in self.violations:
            t = (v.get("extra") or {}).get("trace")
            if t and os.path.exists(t):
                shutil.copy(t, f[:-5] + ".trace.ndjson")
                v["extra"]["trace"] = f[:-5] + ".trace.ndjson"
        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": self.violations[:20],
                   "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py --property %s" % (self.seed, self.tier, self.prop)}, open(f, "w"), indent=1)
        for v in self.violations[:5]:
            log("  %s: %s" % (v["kind"], v["detail"][:1000]))
            if v.get("data_hex"):
                log("    input (hex): " + v["data_hex"][:400])
        log("VIOLATION property=%s replay=%s" % (self.prop, f))

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


# =================================================================== checks
def scan_check(models, cmd, trace=True, selftest=True):
    """Properties of the public split function: models, driver pub, TraceScan."""
    def run(r):
        def conform():
            b, _ = r.all(lambda: r.build("pub"), r.tables)
            t = r.drive(b, cmd)
            if trace:
                r.validate(t, "TraceScan", what="the recorded run of the split function")

        def narrow():
            r.tables()
            r.narrow(lambda **k: r.build("pub", **k), cmd)
        jobs = [conform, narrow] + [lambda m=m: m(r) for m in models]
        if selftest:
            jobs.append(lambda: r.selftest("TraceScan", r.prop))
        r.all(*jobs)
    return run


def M(module, config=None, want="ok", thorough=None, only_thorough=False, **kw):
    def run(r):
        if only_thorough and not r.thorough:
            return
        k = dict(kw)
        if r.thorough and thorough:
            k["subst"] = thorough
            k["workers"] = 8
            k["heap"] = "10g"
            k.setdefault("timeout", 3000)
        r.model(module, config, want, **k)
    return run


def proof(r):
    r.all(lambda: r.prove("Monitors_proofs"), lambda: r.prove("Machine_proofs"))


def P(*modules):
    return lambda r: r.all(*[lambda m=m: r.prove(m) for m in modules])


proof_utf8 = P("Units_proofs", "Utf8_proofs")
proof_split = P("Units_proofs", "Final_proofs", "Split_proofs", "Delivery_proofs")
proof_prompt = P("Units_proofs", "Utf8_proofs", "Final_proofs", "Prompt_proofs")


rules = M("MC_Rules", thorough={"MaxLen": 5}, workers=4)
machine = M("MC_Machine", workers=2)
machine_orig = M("MC_Machine", "MC_Machine_orig.cfg", want="Correct")
utf8 = M("MC_Utf8", thorough={"MaxLen": 7}, workers=2)
streams = [M("MC_Stream", "MC_Stream_%s.cfg" % k, workers=2, thorough={"InputLen": 6}) for k in ("Emoji", "Indic", "Flag", "Ctl")]


def c08(r):
    def conform():
        b, _ = r.all(lambda: r.build("pub"), r.tables)
        t = r.drive(b, "c08")
        r.validate(t, "TraceCalls", what="the recorded interleaving of calls")

    def race():
        b, _ = r.all(lambda: r.build("pub", race=True), r.tables)
        t = r.drive(b, "c08", extra="race", name="c08race", race=True)
        r.stats["race_detector_runs"] = 1
        if os.path.exists(t):
            r.validate(t, "TraceCalls", what="the recorded interleaving of calls (race build)")
    r.tables()
    r.all(conform, race, lambda: r.narrow(lambda **k: r.build("pub", **k), "c08"), lambda: r.selftest("TraceCalls"),
          lambda: r.model("Calls", "MC_Calls.cfg"),
          *[lambda v=v: r.model("Calls", "MC_Calls_%s.cfg" % v, want="Pure Unmodified") for v in ("scratch", "memo", "key", "peek", "write")])


def c10(r):
    GEN = [HARNESS + "/gen", HARNESS + "/gen_opaque", HARNESS + "/common"]  # a later file of the same name replaces the earlier

    def gen():
        return r.build_or("gen", lambda: r.build("gen", dirs=GEN))

    def behaviours():
        n = r.pick(2000, 20000)
        out = r.model("GenPropTable", args=("-simulate", "num=%d" % n, "-depth", "20", "-seed", str(r.seed)), workers=4)
        f = r.path("behaviours.ndjson")
        k = r.lines(out, "BEHAVIOUR", f)
        r.models[-1]["behaviours_generated"] = k
        return f

    def tables():
        b, bh, _ = r.all(gen, behaviours, r.tables)
        few = r.path("few.ndjson")
        with open(few, "w") as f:
            f.writelines([l for k, l in enumerate(open(bh)) if k % 4 == r.seed % 4])
        ucd = "%s/%s/ucd" % (REPO, CHARPROPS)

        def wide():
            t = r.drive(b, "c10", extra={"UCD": ucd, "Behaviours": bh, "Scratch": r.fresh("sets")})
            if os.path.exists(t):
                r.validate(t, "TraceTable", what="the recorded table generation")

        def narrow():
            r.narrow(lambda **k: r.build("gen", **k), "c10", extra={"UCD": ucd, "Behaviours": few, "Scratch": r.fresh("sets")})
        r.all(wide, narrow)
        if r.stats.get("layout_unknown"):
            end_to_end(r.pick(24, 80), "more")

    def end_to_end(n=r.pick(6, 40), name="e2e"):
        b, _ = r.all(gen, r.tables)
        d = r.fresh(name)
        r.drive(b, "mkdata", extra={"Dir": d, "N": n, "Skip": 6 if name == "more" else 0}, name="mkdata-" + name)

        def one(i):
            repo = r.copy_repo()
            ucd = "%s/%s/ucd" % (repo, CHARPROPS)
            shutil.rmtree(ucd)
            shutil.copytree("%s/e2e%d/ucd" % (d, i), ucd)
            raw = "%s/%s/property_table_raw.go" % (repo, CHARPROPS)
            before = open(raw).read()
            rc, so, se = r.sh([GO, "run", *r.generator(repo)], cwd="%s/%s" % (repo, CHARPROPS), env=r.goenv(), check=False)
            if rc != 0 and i > n:
                r.stats["oversized_data_refused"] = r.stats.get("oversized_data_refused", 0) + 1
                return
            if rc != 0 or open(raw).read() == before:
                r.violate({"property": r.prop, "kind": "generator", "detail": "running generate.go on proper data fails (%d): %s" % (rc, (so + se)[-500:])})
            rc, so, se = r.sh([GO, "build", "-buildvcs=false", "./..."], cwd=repo, env=r.goenv(), check=False)
            if rc != 0:
                r.violate({"property": r.prop, "kind": "generator", "detail": "the module does not build with the generated table: " + se[-800:]})
            q = r.build("query", repo=repo)
            r.drive(q, "query", extra="%s/e2e%d/want.json" % (d, i), name="query-%s%d" % (name, i))
            shutil.rmtree(repo)
        r.all(*[lambda i=i: one(i) for i in range(n + 3)])
        r.stats["end_to_end_generations"] = r.stats.get("end_to_end_generations", 0) + n + 3

    r.tables()
    r.all(tables, end_to_end, lambda: r.selftest("TraceTable"),
          lambda: r.model("MC_PropTable", "MC_PropTable_deep.cfg" if r.thorough else "MC_PropTable.cfg", workers=r.pick(4, 8), heap="10g", timeout=3000),
          *[lambda v=v: r.model("MC_PropTable", "MC_PropTable_%s.cfg" % v, want="Faithful Refuses Contradicts InBounds Bounded")
            for v in ("shareZero", "narrow", "weakKey", "noOr", "lostRoot")])


UCD_NAMES = {"RI": "Regional_Indicator", "ExtPict": "Extended_Pictographic",
             **{k: k for k in "InCB CR LF Control Extend ZWJ Prepend SpacingMark L V T LV LVT Linker Consonant".split()}}
UCD_FILES = {  # the files of Unicode 17.0 that the pinned classes come from
    "gcb": ("auxiliary/GraphemeBreakProperty.txt", "d6b51d1d2ae5c33b451b7ed994b48f1f4dc62b2272a5831e7fd418514a6bae89"),
    "pict": ("emoji/emoji-data.txt", "2cb2bb9455cda83e8481541ecf5b6dfda66a3bb89efa3fa7c5297eccf607b72b"),
    "conj": ("DerivedCoreProperties.txt", "24c7fed1195c482faaefd5c1e7eb821c5ee1fb6de07ecdbaa64b56a99da22c08")}


def as_lines(r, src):
    """A text file as records that TLC reads."""
    f = r.fresh("lines") + "/lines.ndjson"
    b = open(src, "rb").read().split(b"\n")
    with open(f, "w") as o:
        for l in b[:-1] if b[-1] == b"" else b:
            o.write(json.dumps({"line": list(l.removesuffix(b"\r"))}) + "\n")
    return f


def official(r):
    r.model("OfficialTests", env={"LINES": as_lines(r, SPEC + "/data/GraphemeBreakTest-17.0.txt"), "UCD_JSON": UCD17})


def pinned(kind):
    """The pinned classes against the data files, where the repository still has those."""
    def run(r):
        name, digest = UCD_FILES[kind]
        f = "%s/%s/ucd/%s" % (REPO, CHARPROPS, name)
        if not os.path.exists(f) or hashlib.sha256(open(f, "rb").read()).hexdigest() != digest:
            r.notes.append("%s is not that of Unicode 17.0: the pinned classes are not compared with it" % name)
            return
        names = r.fresh("names") + "/names.json"
        json.dump({k: list(v.encode()) for k, v in UCD_NAMES.items()}, open(names, "w"))
        r.model("Ucd17Data", env={"LINES": as_lines(r, f), "NAMES": names, "KIND": kind, "UCD_JSON": UCD17}, workers=1)
        r.models[-1]["file"] = name
    return run


def bundled(r, fmt, name, binary):
    """What the reader gets from a file of the repository, line by line."""
    f = "%s/%s/ucd/%s" % (REPO, CHARPROPS, name)
    module = {"UcdFile": "BundledUcd", "TestFile": "BundledTest"}[fmt]
    t = r.drive(binary, "bundled", extra=f, name="bundled-" + os.path.basename(name))
    lines = as_lines(r, f)
    n = sum(1 for _ in open(lines))
    r.validate(t, module, env={"LINES": lines}, what="what is read from " + name, judged=1, steps=n + 1)
    with r.lock:
        r.stats["bundled_lines_compared"] = r.stats.get("bundled_lines_compared", 0) + n


def reader(fmt, cmd):
    files = [n for n, _ in UCD_FILES.values()] if fmt == "UcdFile" else ["auxiliary/GraphemeBreakTest.txt"]

    def run(r):
        def vectors():
            out = r.model("MC_" + fmt, "Gen_%s.cfg" % fmt, workers=1)
            f = r.path("vectors.ndjson")
            r.lines(out, "VECTOR", f)
            return f

        def conform():
            b, v, _ = r.all(lambda: r.build("parse"), vectors, r.tables)

            def generated():
                t = r.drive(b, cmd, extra={"Vectors": v})
                r.validate(t, "Trace" + fmt, what="the recorded reading of a file")
            r.all(generated, lambda: r.narrow(lambda **k: r.build("parse", **k), cmd, extra={"Vectors": v}), *[lambda n=n: bundled(r, fmt, n, b) for n in files])
        r.all(conform, lambda: r.selftest("Trace" + fmt),
              lambda: r.model("MC_" + fmt, "MC_%s.cfg" % fmt, workers=r.pick(2, 8), timeout=3000, subst={"MaxFrag": 5} if r.thorough else None))
    return run


IMPORTS = '%s "github.com/apparentlymart/go-textseg/autoversion/%s"'
IMPL = '{Name: %s, Releases: []int{%s}, Version: %s.UnicodeMajorVersion, Scan: %s.ScanGraphemeClusters, AllTokens: %s.AllTokens, TokenCount: %s.TokenCount, ScanUTF8: %s.ScanUTF8Sequences}'


def auto_build(r, go=GO, impls=(), real=True, goarch=None):
    """Builds the autoversion driver with the real package, and with the
    selections of files given."""
    d = r.fresh("auto")
    open(d + "/go.work", "w").write("go 1.25\n\nuse (\n\t%s\n\t%s/autoversion\n)\n" % (REPO, REPO))
    imps, vals, extra = [], [], []
    if real:
        imps.append(IMPORTS % ("real", "textseg"))
        vals.append(IMPL % (('"as selected by the toolchain"', "") + ("real",) * 5))
    for k, (files, releases) in enumerate(impls):
        imps.append(IMPORTS % ("i%d" % k, "verifimpl%d" % k))
        vals.append(IMPL % ((json.dumps("files " + " ".join(files)), ", ".join(map(str, releases))) + ("i%d" % k,) * 5))
        for j, f in enumerate(files):
            s = open("%s/autoversion/textseg/%s" % (REPO, f)).read()
            head, sep, body = s.partition("\npackage ") if not s.startswith("package ") else ("", "", s)
            head = "\n".join(l for l in head.split("\n") if not re.match(r"\s*//\s*(go:build|\+build)\b", l))
            p = "%s/impl%d_f%d.go" % (d, k, j)
            open(p, "w").write(head + sep + body)
            extra.append(("autoversion/verifimpl%d/f%d.go" % (k, j), p))
    g = d + "/impls_gen.go"
    open(g, "w").write("package main\n\nimport (\n\t%s\n)\n\nvar impls = []impl{\n\t%s,\n}\n" % ("\n\t".join(imps), ",\n\t".join(vals)))
    extra.append(("autoversion/verifauto/impls_gen.go", g))
    return r.build("auto", pkg="autoversion/verifauto", module="autoversion", work=d + "/go.work", go=go, extra_files=extra, goarch=goarch)


def c13(r):
    rel = r.path("releases.json")
    r.all(r.tables, lambda: r.model("MC_Autoversion", env={"TABLES_OUT": rel}))
    unicode_of = json.load(open(rel))
    trace = r.path("c13.ndjson")
    tl = threading.Lock()

    def add(events):
        with tl, open(trace, "a") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")

    def selections():
        p = r.path("autoplan")
        r.sh([GO, "build", "-o", p, HARNESS + "/autoplan/main.go"], env=r.goenv(GO111MODULE="off"))
        _, plats, _ = r.sh([GO, "tool", "dist", "list"], env=r.goenv())
        _, out, _ = r.sh([p, REPO + "/autoversion/textseg", plats.replace("\n", " ")])
        sels = json.loads(out)
        groups, seen = {}, set()
        for s in sels:
            u = unicode_of[s["release"] - 1]
            ok = s["defs"] == 1 and s["version"] == u and not s["problems"] if u else s["defs"] == 0
            if not ok:
                r.violate({"property": r.prop, "kind": "selection", "detail": "with Go 1.%d on %s (tags: %s) the files %s are selected: %d implementations, version %d advertised; expected %s %s" % (
                    s["release"], s["platform"], s["tags"] or "none", " ".join(s["files"] or []), s["defs"], s["version"],
                    "one, for Unicode %d" % u if u else "none", "; ".join(s["problems"] or []))})
            if u:
                groups.setdefault(tuple(s["files"]), set()).add(s["release"])
            k = (s["release"], tuple(s["files"] or []))
            if k not in seen:
                seen.add(k)
                add([{"ev": "select", "release": s["release"], "defs": s["defs"], "version": s["version"]}])
        r.stats["selections_evaluated"] = len(sels)
        r.stats["distinct_selections"] = len(groups)
        impls = [(fs, sorted(rs)) for fs, rs in groups.items()]
        try:
            b = auto_build(r, impls=impls, real=False)
        except Infra as e:
            # If the real package builds, a selection that does not is the package's fault.
            auto_build(r)
            r.violate({"property": r.prop, "kind": "build", "detail": "the files selected for a supported release do not compile: %s" % str(e)[-1500:]})
        t = r.drive(b, "c13", extra={"UnicodeOf": unicode_of}, name="selections")
        r.narrow(lambda **k: auto_build(r, impls=impls, real=False, **k), "c13", old=False, extra={"UnicodeOf": unicode_of}, name="selections")
        add([json.loads(l) for l in open(t)])

    def toolchain(k):
        go = TOOLCHAINS % RELEASES[k]
        if not os.path.exists(go):
            return
        try:
            b = auto_build(r, go=go)
        except Infra as e:
            d = r.fresh("work")
            open(d + "/go.work", "w").write("go 1.25\n\nuse (\n\t%s\n\t%s/autoversion\n)\n" % (REPO, REPO))
            rc, so, se = r.sh([go, "build", "-buildvcs=false", "./..."], cwd=REPO + "/autoversion", env=r.goenv(GOWORK=d + "/go.work"), check=False)
            if rc == 0 and "undefined: real." not in str(e):
                raise
            r.violate({"property": r.prop, "kind": "build", "detail": "the package has no usable implementation with Go 1.%d: %s" % (k, str(e)[-1500:])})
        t = r.drive(b, "c13", extra={"UnicodeOf": unicode_of, "Real": True, "Release": k}, name="go%d" % k)
        add([json.loads(l) for l in open(t)])

    def unsupported():
        # as if for the next release: its tag is all that differs
        d = r.fresh("unsup")
        open(d + "/main.go", "w").write('package main\n\nimport "github.com/apparentlymart/go-textseg/autoversion/textseg"\n\nfunc main() { textseg.ScanGraphemeClusters(nil, true) }\n')
        open(d + "/go.work", "w").write("go 1.25\n\nuse (\n\t%s\n\t%s/autoversion\n)\n" % (REPO, REPO))
        json.dump({"Replace": {REPO + "/autoversion/verifunsup/main.go": d + "/main.go"}}, open(d + "/overlay.json", "w"))
        res = []
        for tags in ("", "go1.28"):
            rc, so, se = r.sh([GO, "build", "-buildvcs=false", "-tags", tags, "-overlay", d + "/overlay.json", "-o", d + "/bin", "./verifunsup"],
                              cwd=REPO + "/autoversion", env=r.goenv(GOWORK=d + "/go.work"), check=False)
            res.append((rc, se))
        if res[0][0] != 0:
            r.violate({"property": r.prop, "kind": "build", "detail": "a program using the package does not compile with Go 1.27: " + res[0][1][-800:]})
        if res[1][0] == 0:
            r.violate({"property": r.prop, "kind": "unsupported", "detail": "a program using the package compiles as if for Go 1.28, which is not supported"})
        add([{"ev": "unsupported", "release": 28, "compiled": False}])
        r.stats["unsupported_builds_refused"] = 1

    r.all(selections, unsupported, *[lambda k=k: toolchain(k) for k in RELEASES], lambda: r.selftest("TraceAutoversion"),
          *[lambda v=v: r.model("MC_Autoversion", "MC_Autoversion_%s.cfg" % v, want="Right", env={"TABLES_OUT": r.path("ctl%s.json" % v)})
            for v in ("Gap", "Overlap", "NoEnd", "Late", "Early")])
    r.validate(trace, "TraceAutoversion", what="the recorded selections and calls")


def c14(r):
    strict = r.path("strict.json")

    def conform():
        b, _, _ = r.all(lambda: auto_build(r), lambda: r.model("MC_Utf8Strict", env={"TABLES_OUT": strict}, subst={"MaxLen": r.pick(3, 4)}, workers=r.pick(2, 8)), r.tables)
        r.all(lambda: r.validate(r.drive(b, "c14", extra={"Strict": strict}), "TraceTokens", what="the recorded use of the token utilities"),
              lambda: r.narrow(lambda **k: auto_build(r, **k), "c14", old=False, extra={"Strict": strict}))
    r.all(conform, lambda: r.selftest("TraceTokens"),
          lambda: r.model("Tokens", "MC_Tokens.cfg", subst={"MaxInput": r.pick(8, 12)}, workers=r.pick(2, 8)),
          *[lambda v=v: r.model("Tokens", "MC_Tokens_%s.cfg" % v, want="Intact") for v in ("alias", "once")])


def c15(r):
    def conform():
        b, _ = r.all(lambda: r.build_or("mach", lambda: None), r.tables)
        if b is None:  # the machine has another form: judged through the scanner, which restarts it at every boundary
            b = r.build("pub")
            r.all(*[lambda c=c: r.validate(r.drive(b, c), "TraceScan", what="the recorded scanner calls") for c in ("c01", "c09")])
            return
        t = r.drive(b, "c15")
        r.validate(t, "TraceMachine", what="the recorded run of the boundary machine")
    def narrow():
        r.tables()
        r.narrow(lambda **k: r.build("mach", **k), "c15")
    r.all(conform, narrow, lambda: rules(r), lambda: proof(r), lambda: machine(r), lambda: machine_orig(r), lambda: r.selftest("TraceMachine"))


def c16(r):
    trace = r.path("c16.ndjson")
    runs = r.pick(2, 5)

    def sig(repo, name):
        b = r.build("pub", repo=repo)
        f = r.path(name + ".sig")
        r.drive(b, "sig", extra=f, name=name)
        ranges = []
        for l in open(f):
            span, _, key = l.rstrip("\n").partition(" ")
            lo, hi = span.split("..")
            ranges.append([int(lo, 16), int(hi, 16), hashlib.sha256(key.encode()).hexdigest()[:8]])
        return ranges

    def regenerate():
        repo, other = r.copy_repo(), r.copy_repo()
        mark = "\n// not yet regenerated\n"
        for d in (repo, other):
            open("%s/%s/property_table_raw.go" % (d, CHARPROPS), "a").write(mark)
        ev = []
        # All runs but the first start from a table that an earlier run has written; later ones differ
        # from it in all that must not matter: the time, the directory, the environment, the parallelism.
        plan = [(repo, {}, False), (repo, {"GOMAXPROCS": "1", "TZ": "Asia/Kathmandu", "LANG": "de_DE.UTF-8", "USER": "somebody", "GOGC": "10"}, False)]
        plan += [(repo, {"GOMAXPROCS": str(k + 2)}, False) for k in range(runs - 2)]
        plan += [(other, {"HOSTNAME": "elsewhere"}, False), (other, {}, True)]
        for k, (d, env, false_clock) in enumerate(plan):
            cwd = "%s/%s" % (d, CHARPROPS)
            raw = cwd + "/property_table_raw.go"
            if k == 1:
                time.sleep(1.1)
            if not false_clock:
                rc, so, se = r.sh([GO, "run", *r.generator(d)], cwd=cwd, env=r.goenv(**env), check=False)
            else:  # the runtime's clock for playgrounds starts in 2009; it can hang on a busy machine
                open(raw, "a").write(mark)
                g = r.fresh("clock") + "/generate"
                r.sh([GO, "build", "-buildvcs=false", "-tags", "faketime", "-o", g, *r.generator(d)], cwd=cwd, env=r.goenv(), check=False)
                for _ in range(5):
                    try:
                        rc, so, se = r.sh([g], cwd=cwd, env=r.goenv(), check=False, timeout=10)
                        break
                    except (Infra, OSError):
                        rc = -1
                if rc != 0:
                    r.notes.append("the run under a false clock fails and is not counted")
                    break
            ok = rc == 0 and not open(raw).read().endswith(mark)
            ev.append({"ev": "generate", "run": k, "ok": ok, "digest": hashlib.sha256(open(raw, "rb").read()).hexdigest()})
            if not ok:
                r.violate({"property": r.prop, "kind": "generator", "detail": "running generate.go on the bundled data fails (%d): %s" % (rc, (so + se)[-1500:])})
            if ev[-1]["digest"] != ev[0]["digest"]:
                r.violate({"property": r.prop, "kind": "unstable", "detail": "run %d of the generator (%s) writes something else than the first" % (k + 1, "another clock" if false_clock else "another directory" if d == other else "same directory, later")})
        # Many more runs, in which whatever is left to chance falls out differently.
        g = r.fresh("plain") + "/generate"
        cwd = "%s/%s" % (other, CHARPROPS)
        raw = cwd + "/property_table_raw.go"
        r.sh([GO, "build", "-buildvcs=false", "-o", g, *r.generator(other)], cwd=cwd, env=r.goenv())
        for k in range(r.pick(16, 200)):
            if k in (3, 11):  # by other releases of Go
                go = TOOLCHAINS % RELEASES[25 if k == 3 else 26]
                try:
                    r.sh([go, "build", "-buildvcs=false", "-o", g, *r.generator(other)], cwd=cwd, env=r.goenv())
                    r.stats["generators_built_by_other_releases"] = r.stats.get("generators_built_by_other_releases", 0) + 1
                except (Infra, OSError) as e:
                    r.notes.append("the generator does not build with %s: %s" % (go, str(e)[-300:]))
            open(raw, "a").write(mark)
            cmd, env = [g], r.goenv(GOMAXPROCS=str(k % 8 + 1), GOGC=str(20 + 40 * (k % 5)))
            if k == 4:  # the data files as if checked out at another time, in another order
                for i, f in enumerate(sorted(glob.glob(cwd + "/ucd/**/*.txt", recursive=True))):
                    os.utime(f, (1e9 - i * 86400, 1e9 - i * 86400))
            elif k == 5:
                cmd = ["env", "-i", "PATH=" + os.environ.get("PATH", ""), "HOME=" + env["HOME"], g]
            elif k == 6:
                cmd = ["taskset", "-c", "0", g]
            elif k == 7:
                cmd = ["sh", "-c", "umask 0777 && exec " + g]
            elif k == 8:
                cmd = ["unshare", "-Ur", "--uts", "sh", "-c", "hostname elsewhere && exec " + g]
            elif k == 9:
                cmd = ["setsid", "sh", "-c", "ulimit -n 16 && exec %s </dev/null" % g]
            if k in (6, 8) and r.sh([*cmd[:-1], "true" if k == 6 else "hostname elsewhere"], check=False)[0] != 0:
                cmd = [g]  # not possible here
            elif cmd != [g]:
                r.stats["generator_runs_under_other_conditions"] = r.stats.get("generator_runs_under_other_conditions", 0) + 1
            rc, so, se = r.sh(cmd, cwd=cwd, env=env, check=False)
            ev.append({"ev": "generate", "run": len(ev), "ok": rc == 0, "digest": hashlib.sha256(open(raw, "rb").read()).hexdigest()})
            if rc != 0 or ev[-1]["digest"] != ev[0]["digest"]:
                r.violate({"property": r.prop, "kind": "unstable", "detail": "run %d of the generator %s" % (len(ev), "fails: " + se[-800:] if rc else "writes something else than the first")})
        r.stats["generator_runs"] = len(ev)
        g32 = r.fresh("narrow") + "/generate"
        if r.sh([GO, "build", "-buildvcs=false", "-o", g32, *r.generator(other)], cwd=cwd, env=r.goenv(GOARCH="386"), check=False)[0] == 0:
            open(raw, "a").write(mark)
            rc, so, se = r.sh([g32], cwd=cwd, env=r.goenv(), check=False)
            ev.append({"ev": "generate", "run": len(ev), "ok": rc == 0, "digest": hashlib.sha256(open(raw, "rb").read()).hexdigest()})
            if rc != 0 or ev[-1]["digest"] != ev[0]["digest"]:
                r.violate({"property": r.prop, "kind": "unstable", "detail": "run %d of the generator (compiled for a 32-bit machine) %s" % (len(ev), "fails: " + se[-800:] if rc else "writes something else than the first")})
        # Output that cannot be written, in whole or at all, is not passed over in silence.
        for what in ("a full device", "a directory"):
            os.path.isdir(raw) or os.remove(raw)
            os.symlink("/dev/full", raw) if what == "a full device" else os.mkdir(raw)
            rc, so, se = r.sh([g], cwd=cwd, env=r.goenv(), check=False)
            if os.path.islink(raw) != (what == "a full device") or os.path.isfile(raw):
                continue  # replaced, not written through: no fault has happened
            ev.append({"ev": "fault", "run": len(ev), "ok": rc == 0, "where": what})
            if rc == 0:
                r.violate({"property": r.prop, "kind": "silent", "detail": "the generator cannot write its output to %s and exits with 0 all the same" % what})
        r.stats["generator_write_faults"] = 2
        rc, so, se = r.sh([GO, "build", "-buildvcs=false", "./..."], cwd=repo, env=r.goenv(), check=False)
        if rc != 0:
            r.violate({"property": r.prop, "kind": "build", "detail": "the module does not build with the regenerated table: " + se[-1500:]})
        return ev, sig(repo, "regenerated")

    r.tables()
    old, (ev, new), *_ = r.all(lambda: sig(None, "checkedin"), regenerate, lambda: r.selftest("TraceRegen"), lambda: r.model("Regen", "MC_Regen.cfg"),
                               *[lambda v=v, w=w: r.model("Regen", "MC_Regen_%s.cfg" % v, want=w) for v, w in (("order", "SameOutput"), ("feed", "SameOutput"), ("stale", "SameMeaning"), ("silent", "SameMeaning SameOutput"))])
    with open(trace, "w") as f:
        for e in [{"ev": "classify", "ranges": old}, *ev, {"ev": "classify", "ranges": new}]:
            f.write(json.dumps(e) + "\n")
    r.stats["behaviour_ranges"] = len(old)
    if old != new:
        d = [(a, b) for a, b in zip(old, new) if a != b][:1]
        r.violations.append({"property": r.prop, "kind": "changed", "detail": "the regenerated table classifies differently: first at ranges %s" % (
            " / ".join("U+%04X..U+%04X" % (x[0], x[1]) for x in d[0]) if d else "after the end of one list")})
        raise Stop()
    r.samples.append({"generator_runs": len(ev), "ranges_of_equal_behaviour": len(old), "first": old[:5]})
    r.validate(trace, "TraceRegen", what="the recorded regeneration")


def c17(r):
    DATA = "%s/%s/ucd" % (REPO, CHARPROPS)
    def conform():
        b, _ = r.all(lambda: r.build("props"), r.tables)
        t = r.drive(b, "c17", extra=DATA)
        r.validate(t, "TraceProps", what="what is recorded of names and packings", judged=1)
    def narrow():
        r.tables()
        r.narrow(lambda **k: r.build("props", **k), "c17", extra=DATA)
    r.all(conform, narrow, lambda: r.selftest("TraceProps"), lambda: r.model("MC_Props"), lambda: r.model("MC_Props", "MC_Props_overlap.cfg", want="Inv All"))


ASSUMPTIONS = {
    "C01": ["spec/UAX29.tla states the rules as the standard does", "texts of any length are covered through the finite look-back automaton, which TLC shows equivalent to the rules on all short texts"],
    "C02": ["spec/data/ucd17.json, made once from the Unicode 17.0 data files by tools/mkucd.py"],
    "C08": ["memory beyond the presented bytes is tried by contents and by inaccessible pages"],
    "C13": ["facts about the Unicode version of Go releases that are not installed (1.21 to 1.24)"],
}

CHECKS = {
    "C01": scan_check([rules, proof, official, *streams[:3]], "c01"),
    "C02": scan_check([M("MC_Props"), *map(pinned, UCD_FILES)], "c02"),
    "C03": scan_check([proof_utf8, proof_split, utf8, *streams], "c03"),
    "C04": scan_check([proof_utf8, utf8, *streams], "c04"),
    "C05": scan_check([proof_split, *streams], "c05"),
    "C06": scan_check([proof_split, *streams], "c06"),
    "C07": scan_check([proof_prompt, *streams], "c07"),
    "C08": c08,
    "C09": scan_check([rules, proof, machine], "c09"),
    "C10": c10,
    "C11": reader("UcdFile", "c11"),
    "C12": reader("TestFile", "c12"),
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": c16,
    "C17": c17,
}


def setup():
    """Nothing is kept between runs; this only shows that the tools work here."""
    r, bad = Run("setup", "quick", 1), 0
    try:
        for f in sorted(glob.glob(SPEC + "/*.tla")):
            rc, out, err = r.sh(["java", "-DTLA-Library=" + TLAPS, "-cp", JARS, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC, check=False)
            if rc or "Fatal error" in out or "*** Errors" in out:
                bad = 1
                log(f, out[-2000:])
        r.sh([GO, "version"], env=r.goenv())
    finally:
        r.cleanup()
    log("specifications parsed" if not bad else "some specifications do not parse")
    return bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="parse every specification, compile nothing that a check does not rebuild")
    a = ap.parse_args()
    if a.setup:
        sys.exit(setup())
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        x = json.load(open(a.replay))
        a.property, tier, seed = x["property"], x["tier"], x["seed"]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    r = Run(a.property, tier, seed)
    rc = 2
    try:
        try:
            CHECKS[a.property](r)
            rc, err = 0, None
        except Stop:
            rc, err = 1, None
        except Exception as e:
            if not isinstance(e, Infra):
                import traceback
                traceback.print_exc()
            err = str(e)
            rc = 1 if r.violations else 2
        r.finish("model_checking", err if rc == 2 else None)
        if rc == 0:
            log("%s holds on everything explored (%s tier, seed %d, %.0f s): %d states, %d traces" % (a.property, tier, seed, time.time() - r.t0, r.states, r.traces))
        elif rc == 1:
            r.report()
        else:
            log("ERROR (no answer) property=%s: %s" % (a.property, err))
    finally:
        r.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
