#!/usr/bin/env python3
"""Writes spec/selftest/: for every trace specification a small trace that it
must accept and one that it must reject (the same with one wrong answer)."""
import json, os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec/selftest")
os.makedirs(D, exist_ok=True)
def w(name, good, bad):
    for k, t in (("good", good), ("bad", bad)):
        open("%s/%s_%s.ndjson" % (D, name, k), "w").write("".join(json.dumps(e, separators=(",", ":")) + "\n" for e in t))
B = lambda s: list(s.encode()) if isinstance(s, str) else list(s)
def call(d, eof, adv, tok=None, err=False, has=None):
    d = B(d); return dict(ev="call", data=d, eof=eof, adv=adv, hasTok=adv > 0 if has is None else has, tok=(d[:adv] if tok is None else B(tok)), err=err)
def session(d, steps):
    return [dict(ev="open", input=B(d))] + steps + [dict(ev="close")]
def rd(n, eof=False): return dict(ev="read", n=n, eof=eof)
fam = "\U0001F469\u200D\U0001F469"     # woman ZWJ woman: 11 bytes
flags = "\U0001F1E6\U0001F1E7\U0001F1E8"
conj = "\u0915\u094D\u0915"
w("TraceScan_C01", [call(fam + "a", True, 11), call(flags, True, 8), call(conj, True, 9), call("a\u0301", False, 0)], [call(fam + "a", True, 11), call(fam, True, 7)])
w("TraceScan_C02", [call("\u0301", True, 2), call("a\u0301", True, 3), call("ab", True, 1)], [call("a\u0301", True, 1)])
w("TraceScan_C09", [call("a" + "\u0301" * 50, True, 101)], [call("a" + "\u0301" * 50, True, 81)])
w("TraceScan_C03", session("a\xff".encode("latin1"), [rd(2), call(b"a\xff", False, 1), call(b"\xff", False, 1), rd(0, True), call("", True, 0)]),
  session("ab", [rd(2), call("ab", False, 1), rd(0, True), call("b", True, 1, tok="a"), call("", True, 0)]))
w("TraceScan_C04", session(b"a\xcc\x81\xffb", [rd(5, True), call(b"a\xcc\x81\xffb", True, 3), call(b"\xffb", True, 1), call("b", True, 1), call("", True, 0)]),
  session(b"a\xffb", [rd(3, True), call(b"a\xffb", True, 2), call("b", True, 1), call("", True, 0)]))
one = session("a\u0301b", [rd(4, True), call("a\u0301b", True, 3), call("b", True, 1), call("", True, 0)])
w("TraceScan_C05", one + session("a\u0301b", [rd(1), call("a", False, 0), rd(3), call("a\u0301b", False, 3), call("b", False, 0), rd(0, True), call("b", True, 1), call("", True, 0)]),
  one + session("a\u0301b", [rd(1), call("a", False, 1), rd(3), call("\u0301b", False, 2), call("b", False, 0), rd(0, True), call("b", True, 1), call("", True, 0)]))
w("TraceScan_C06", [call("a", False, 0), call("ab", False, 1), call("\r", False, 0), call(b"a\xc3", False, 1), call(b"a\xcc", False, 0)], [call("ab", False, 1), call("a", False, 1)])
w("TraceScan_C07", [call("ab", False, 1), call("", True, 0), call("a", True, 1)], [call("a", False, 0), call("ab", False, 0)])
def st(g, d, eof): return dict(ev="start", g=g, data=B(d), eof=eof)
def rt(g, d, adv, tok=None): return dict(ev="return", g=g, data=B(d), adv=adv, hasTok=adv > 0, tok=B(d)[:adv], err=False)
w("TraceCalls", [st(1, "ab", True), st(2, "ab", True), rt(2, "ab", 1), rt(1, "ab", 1), st(1, "ab", False), rt(1, "ab", 1)],
  [st(1, "ab", True), st(2, "ab", True), rt(2, "ab", 1), rt(1, "ab", 2)])
ma = lambda *q: [dict(ev="begin", c=q[0])] + [dict(ev="step", c=c, brk=b) for c, b in q[1:]]
w("TraceMachine", ma("RI", ("RI", False), ("RI", True), ("Other", True), ("ZWJ", False)) + [dict(ev="restart")], ma("RI", ("RI", False), ("RI", False)))
val = lambda kind, name, v, none=0, string=None, control=False: dict(ev="value", kind=kind, name=name, v=v, none=none, string=string or name, control=control)
w("TraceProps", [val("gcb", "CR", 1, control=True), val("gcb", "L", 2), val("incb", "Linker", 1), dict(ev="other", kind="gcb", name="cr", v=0, none=0)],
  [val("gcb", "CR", 1, control=True), val("gcb", "LF", 1, control=True)])
en = lambda kind, lo, hi, name: dict(kind=kind, lo=lo, hi=hi, name=name)
ds = lambda es, refused: dict(ev="dataset", entries=es, refused=refused)
lk = lambda cp, b, j: dict(ev="lookup", cp=cp, ok=True, brk=b, conj=j)
es = [en("brk", 65, 70, "CR"), en("conj", 70, 80, "Linker"), en("pict", 100, 100, "Extended_Pictographic")]
w("TraceTable", [ds(es, False), lk(64, "", ""), lk(65, "CR", ""), lk(70, "CR", "Linker"), lk(71, "", "Linker"), lk(100, "Extended_Pictographic", ""),
                 ds(es + [en("pict", 60, 65, "Extended_Pictographic")], True)],
  [ds(es, False), lk(64, "CR", "")])
op = lambda f: dict(ev="open", file=B(f))
rec = lambda a, b, *f: dict(ev="record", rec=dict(kind="entry", start=a, last=b, fields=[B(x) for x in f]))
w("TraceUcdFile", [op("# c\n0041..0043 ; CR # x\r\n\n0050;A;B"), rec(0x41, 0x43, "CR"), rec(0x50, 0x50, "A", "B"), dict(ev="eof"), op("0041;A\n00G1;B\n"), rec(0x41, 0x41, "A"), dict(ev="error")],
  [op("0041;A\n0042;B\n"), rec(0x41, 0x41, "A"), dict(ev="eof")])
smp = lambda *segs: dict(ev="record", rec=dict(kind="sample", segments=[B(s) for s in segs], input=B("".join(segs))))
w("TraceTestFile", [op("# c\n÷ 0061 × 0301 ÷ 0062 ÷\t# x\n"), smp("a\u0301", "b"), dict(ev="eof"), op("÷ 00G1 ÷\n"), dict(ev="error")],
  [op("÷ 0061 × 0301 ÷ 0062 ÷\n"), smp("a", "\u0301", "b")])
ans = lambda adv: dict(adv=adv, hasTok=adv > 0, tok=[97] * adv, err="")
sel = lambda r, d, v: dict(ev="select", release=r, defs=d, version=v)
w("TraceAutoversion", [sel(20, 0, -1), sel(26, 1, 15), sel(27, 1, 17), dict(ev="toolchain", release=27, unicode=17, built=True, version=17), dict(ev="unsupported", release=28, compiled=False),
                       dict(ev="call", release=26, of=15, data=[97], eof=True, got=ans(1), want=ans(1))],
  [sel(26, 1, 15), sel(28, 1, 17)])
sp = lambda off, n, eof, adv, tok, err=False, final=False: dict(ev="split", off=off, match=True, n=n, eof=eof, adv=adv, hasTok=tok is not None, tok=B(tok or ""), err=err, final=final)
tk = [dict(ev="open", kind="all", len=3), sp(0, 3, False, 1, "a"), sp(1, 2, False, 1, None), sp(2, 1, True, 1, "c"), sp(3, 0, True, 0, None)]
w("TraceTokens", tk + [dict(ev="result", tokens=[B("a"), B("c")], count=0, err=False), dict(ev="utf8", data=[0xE2, 0x82], eof=False, adv=0, hasTok=False, tok=[], err=False),
                       dict(ev="utf8", data=[0xE2, 0x82], eof=True, adv=1, hasTok=True, tok=[0xE2], err=False)],
  tk + [dict(ev="result", tokens=[B("c"), B("c")], count=0, err=False)])
w("TraceRegen", [dict(ev="classify", ranges=[[0, 5, "x"]]), dict(ev="generate", run=0, ok=True, digest="d"), dict(ev="generate", run=1, ok=True, digest="d"), dict(ev="classify", ranges=[[0, 5, "x"]])],
  [dict(ev="classify", ranges=[[0, 5, "x"]]), dict(ev="generate", run=0, ok=True, digest="d"), dict(ev="classify", ranges=[[0, 4, "x"]])])
