------------------------------ MODULE Monitors ------------------------------
(***************************************************************************)
(* The left contexts of UAX #29 as finite look-back monitors: the Brzo-    *)
(* zowski derivatives of the rules' regular expressions.  MC_Rules checks  *)
(* (and Monitors_proofs proves, for every length) that they summarise the  *)
(* text exactly; the automaton over them is what the conformance driver    *)
(* interprets as its oracle (see Export).                                  *)
(***************************************************************************)
EXTENDS UAX29Rules

\* prev: last unit ("SOT" at start of text); ri: OddRI;
\* pict: "ext" = PictExt, "zwj" = PictZWJ; conj: "cons" = Conj but not
\* ConjLinked, "link" = ConjLinked.
Monitors == [prev : Units \cup {"SOT"}, ri : BOOLEAN,
             pict : {"no", "ext", "zwj"}, conj : {"no", "cons", "link"}]

SOT == [prev |-> "SOT", ri |-> FALSE, pict |-> "no", conj |-> "no"]

Advance(m, c) ==
  [prev |-> c,
   ri   |-> GCB(c) = "RI" /\ ~m.ri,
   pict |-> IF GCB(c) = "ExtPict" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "Extend" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "ZWJ" THEN "zwj"
            ELSE "no",
   conj |-> IF InCB(c) = "Consonant" THEN "cons"
            ELSE IF m.conj # "no" /\ InCB(c) = "Linker" THEN "link"
            ELSE IF m.conj # "no" /\ InCB(c) = "Extend" THEN m.conj
            ELSE "no"]

\* Is there a boundary between the text summarised by m and a next unit c?
Break(m, c) ==
  LET p == m.prev IN
  IF p = "SOT" THEN TRUE
  ELSE IF GCB(p) = "CR" /\ GCB(c) = "LF" THEN FALSE
  ELSE IF AnyControl(p) \/ AnyControl(c) \/ p = Err \/ c = Err THEN TRUE
  ELSE IF GCB(p) = "L" /\ GCB(c) \in {"L", "V", "LV", "LVT"} THEN FALSE
  ELSE IF GCB(p) \in {"LV", "V"} /\ GCB(c) \in {"V", "T"} THEN FALSE
  ELSE IF GCB(p) \in {"LVT", "T"} /\ GCB(c) = "T" THEN FALSE
  ELSE IF GCB(c) \in {"Extend", "ZWJ", "SpacingMark"} THEN FALSE
  ELSE IF GCB(p) = "Prepend" THEN FALSE
  ELSE IF InCB(c) = "Consonant" /\ m.conj = "link" THEN FALSE
  ELSE IF GCB(c) = "ExtPict" /\ m.pict = "zwj" THEN FALSE
  ELSE IF GCB(c) = "RI" /\ m.ri THEN FALSE
  ELSE TRUE

\* What the monitors mean.
Summarises(m, s) ==
  LET n == Len(s) IN
  /\ m.prev = (IF n = 0 THEN "SOT" ELSE s[n])
  /\ m.ri <=> OddRI(s, n)
  /\ (m.pict = "ext")  <=> PictExt(s, n)
  /\ (m.pict = "zwj")  <=> PictZWJ(s, n)
  /\ (m.conj # "no")   <=> Conj(s, n)
  /\ (m.conj = "link") <=> ConjLinked(s, n)
=============================================================================
