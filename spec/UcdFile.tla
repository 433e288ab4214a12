------------------------------ MODULE UcdFile ------------------------------
(***************************************************************************)
(* The Unicode character database file format, one line at a time (C11).   *)
(* UcdLine(line) is "none" (comment or blank), "entry" (with code points   *)
(* and trimmed fields), "error" (a data line whose code point or range is  *)
(* malformed) or "open" (left open: content without a field separator,     *)
(* blanks inside the range, absurdly long numbers).                        *)
(***************************************************************************)
EXTENDS LineUtil
None_ == [kind |-> "none"]
Error_ == [kind |-> "error"]
Open_ == [kind |-> "open"]
Trims(q) == [k \in 1..Len(q) |-> Trim(q[k])]
UcdLine(line) ==
  LET raw == Before(DropCR(line), <<35>>) IN                    \* #
  IF Index(raw, <<59>>) = 0 THEN IF Trim(raw) = <<>> THEN None_ ELSE Open_
  ELSE LET rng == Trim(Before(raw, <<59>>))                     \* ;
           fields == Trims(Split(After(raw, <<59>>), <<59>>))
           isRange == Index(rng, <<46, 46>>) # 0                \* ..
           lo == Before(rng, <<46, 46>>)
           hi == IF isRange THEN After(rng, <<46, 46>>) ELSE lo
           a == CodePointOf(lo)
           b == CodePointOf(hi)
       IN IF (\E k \in 1..Len(lo) : Blank(lo[k])) \/ (\E k \in 1..Len(hi) : Blank(hi[k]))
          THEN IF CodePointOf(Trim(lo)) >= 0 /\ CodePointOf(Trim(hi)) >= 0 THEN Open_ ELSE Error_
          ELSE IF a < 0 \/ b < 0 \/ a > b THEN Error_
          ELSE IF Overlong(lo) \/ Overlong(hi) THEN Open_
          ELSE [kind |-> "entry", start |-> a, last |-> b, fields |-> fields]
=============================================================================
