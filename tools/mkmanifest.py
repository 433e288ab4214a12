#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TLC = "TLA+ specification checked with TLC; "
N = {
"C01": ("UAX29 rules and look-back automaton in TLA+ (equivalence model-checked with TLC); automaton exported by TLC and product-walked against the code; recorded runs validated by TLC against the rules",
  "TLC shows that the finite look-back automaton reports the same boundaries as the rules on every text up to the length bound over all combined property classes; the code is then run on every automaton state x next class (with representative and random scalar values of each class), on all class strings up to a bound, and on random long texts, and recorded calls are decided by TLC from the rules directly. Assumes that the code treats scalar values of equal behaviour signature equally (C02 checks each one) and that its hidden state is determined by texts of the tried lengths."),
"C02": ("property assignment as a TLA+ relation (Props/Ucd17); every scalar value's observable signature in the scanner compared with it; recorded calls validated by TLC",
  "Exhaustive over all 1,112,064 scalar values: the class of each is read off its behaviour in distinguishing contexts that TLC's tables give, and compared with the Unicode 17.0 data. Trusts spec/data/ucd17.json, which tools/mkucd.py made from the Unicode data files."),
"C03": (TLC + "Stream/SplitFunc/Utf8 models for totality and losslessness; exhaustive short byte strings and random ones on the code; recorded runs validated by TLC",
  "Exhaustive over byte-class strings to a bound and over every two-byte prefix; random for the rest."),
"C04": (TLC + "Utf8 model of structural decoding; code run on all byte-class strings to a bound in all contexts; recorded runs validated by TLC",
  "The decoding of malformed data is defined in Utf8.tla and checked there against its stated consequences; the code is compared on all byte-class strings to a bound, in every automaton context."),
"C05": (TLC + "Stream model explored for every delivery schedule; the code run under bufio.Scanner with the same schedules; recorded calls validated by TLC",
  "All schedules for short inputs, random schedules for longer ones. bufio.Scanner is trusted."),
"C06": (TLC + "Stream model with action property Final over every continuation; the code run at every cut of texts and with all class continuations; recorded calls validated by TLC",
  "Continuations are exhausted over classes and malformed bytes to a bound."),
"C07": (TLC + "Stream model with invariant Prompt (no waiting when decided); the code run at every cut; recorded calls validated by TLC",
  "A waiting code is refuted at the very call that waits. What 'decided' means for sequences whose handling the documentation leaves open is left open."),
"C08": (TLC + "Calls model of all interleavings of calls with negative controls; the code run under histories, concurrent goroutines, the race detector, and memory guards; recorded interleavings validated by TLC",
  "Interleavings of the code are sampled by the scheduler, with the race detector; histories by random choice."),
"C09": ("finite look-back automaton in TLA+ (proved by TLC to decide the rules); code pumped along every automaton cycle past all counter widths up to 2^17; recorded runs validated by TLC",
  "Each cycle of the automaton is pumped to lengths around powers of two; an implementation whose limit lies beyond the largest length tried would pass."),
"C10": (TLC + "PropTable model of trie building and compaction over all data sets of a small alphabet with negative controls; TLC-generated behaviours replayed into the generator; real-size data sets; end-to-end regeneration; recorded generations validated by TLC",
  "The design is decided for all data sets in the small model; the code on simulated behaviours of the specification and random real-size data sets, compared at every scalar value."),
"C11": (TLC + "UcdFile model of lines; every line to a bound exported by TLC with its verdict and replayed into the reader; recorded readings of random files validated by TLC",
  "Exhaustive over lines of up to a number of fragments; random for files."),
"C12": (TLC + "TestFile model of lines; every line to a bound exported by TLC with its verdict and replayed into the reader; recorded readings of random files validated by TLC",
  "Exhaustive over lines of up to a number of fragments; random for files."),
"C13": (TLC + "Autoversion model (releases, selections, versions) with negative controls; every selection of the real files for releases 1-40 on all platforms evaluated and validated by TLC; real builds with Go 1.25, 1.26 and 1.27",
  "Selections for releases that are not installed are evaluated with go/build/constraint and their files run under Go 1.27. Assumes the Unicode version of Go releases that are not installed."),
"C14": (TLC + "Tokens model (memory-aliasing aware) and Utf8Strict model; automaton exported by TLC and compared with the code on all short byte-class strings; recorded uses validated by TLC",
  "Random split functions and buffers of all sizes around the buffer limits; the UTF-8 splitter exhaustively on short byte-class strings."),
"C15": (TLC + "Machine model (action per operation, restarts nondeterministic) checked against the rules; the real machine walked against it over its whole reachable state space; recorded runs validated by TLC",
  "The product of the code's state value (compared with Go equality) and the specification's state is explored to a fixpoint over all classes, so the result is for texts of any length, provided the machine keeps its state in its State value."),
"C16": (TLC + "Regen model with negative controls; the real generator run repeatedly in a copy, and the rebuilt module compared at every scalar value; the recorded regeneration validated by TLC",
  "Exhaustive over scalar values by behaviour signature; output stability over a few runs (Go randomises map iteration in each)."),
"C17": (TLC + "Props model of names and packing with a negative control; the code compared on all values and names; the recorded tables validated by TLC",
  "Exhaustive over all values and combinations; names beyond the values' own are variations and random strings."),
}
checks = []
for p, (t, n) in N.items():
    checks.append({"property": p, "quick_cmd": "python3 check.py --property " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py --property " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the drivers enter the repository's modules as extra packages through go build -overlay, so /repo has no instrumentation. DESIGN.md describes the specification, KNOWN_FINDINGS the defects found."},
          open("/verif/MANIFEST.json", "w"), indent=1)
