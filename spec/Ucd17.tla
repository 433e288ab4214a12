------------------------------- MODULE Ucd17 -------------------------------
(***************************************************************************)
(* Segmentation class of every code point in Unicode 17.0: the ranges      *)
(* pinned in spec/data/ucd17.json (derived once from the Unicode data      *)
(* files by tools/mkucd.py, and committed; not read from the repository    *)
(* under test).  The ranges are sorted and cover 0..0x10FFFF.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils
Ranges == JsonDeserialize(IOEnv.UCD_JSON).ranges

RECURSIVE Find(_, _, _)
Find(cp, lo, hi) ==
  IF lo = hi THEN Ranges[lo][3]
  ELSE LET mid == (lo + hi) \div 2 IN
       IF cp <= Ranges[mid][2] THEN Find(cp, lo, mid) ELSE Find(cp, mid + 1, hi)
UcdClass(cp) == IF cp > 1114111 THEN "Other" ELSE Find(cp, 1, Len(Ranges))
UcdClassesIn(lo, hi) == {Ranges[i][3] : i \in {j \in DOMAIN Ranges : Ranges[j][1] <= hi /\ Ranges[j][2] >= lo}}
                        \cup (IF hi > 1114111 THEN {"Other"} ELSE {})

\* What the two rest on, and what Split_proofs and Prompt_proofs assume of them:
\* the ranges are sorted and leave no gap, and every class in C occurs.
Sound(C) ==
  /\ Ranges[1][1] = 0 /\ Ranges[Len(Ranges)][2] = 1114111
  /\ \A i \in DOMAIN Ranges : Ranges[i][1] <= Ranges[i][2] /\ (i > 1 => Ranges[i][1] = Ranges[i - 1][2] + 1)
  /\ {Ranges[i][3] : i \in DOMAIN Ranges} = C
=============================================================================
