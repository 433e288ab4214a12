------------------------------ MODULE TestFile ------------------------------
(***************************************************************************)
(* The GraphemeBreakTest.txt format, one line at a time (C12).             *)
(* TestLine(line) is "none", "error" (a malformed character reference),    *)
(* "sample" (input bytes and segments), or "open" (surrogates, and lines   *)
(* that do not have the format: no leading or final break mark, marks with *)
(* nothing between them).                                                  *)
(***************************************************************************)
EXTENDS LineUtil
Enc == INSTANCE Utf8
BreakMark == <<195, 183>>    \* U+00F7
JoinMark  == <<195, 151>>    \* U+00D7
RECURSIVE ConcatAll(_)
ConcatAll(q) == IF q = <<>> THEN <<>> ELSE q[1] \o ConcatAll(Tail(q))
TestLine(line) ==
  LET raw == Trim(Before(DropCR(line), <<35>>))
      groups == Split(raw, BreakMark)
      refs == [g \in 1..Len(groups) |->
                 LET q == Split(groups[g], JoinMark) IN [k \in 1..Len(q) |-> Trim(q[k])]]
      all == ConcatAll(refs)
      used == {k \in 1..Len(all) : all[k] # <<>>}
      vals == [k \in used |-> CodePointOf(all[k])]
      n == Len(groups)
  IN IF raw = <<>> THEN [kind |-> "none"]
     ELSE IF \E k \in used : vals[k] < 0 THEN [kind |-> "error"]
     ELSE IF \/ used = {} \/ n < 3
             \/ Trim(groups[1]) # <<>> \/ Trim(groups[n]) # <<>>
             \/ \E g \in 2..(n - 1) : \E k \in 1..Len(refs[g]) : refs[g][k] = <<>>
             \/ \E k \in used : Overlong(all[k]) \/ (vals[k] >= 55296 /\ vals[k] <= 57343)
     THEN [kind |-> "open"]
     ELSE LET seg == [g \in 1..(n - 2) |->
                        ConcatAll([k \in 1..Len(refs[g + 1]) |-> Enc!Encode(CodePointOf(refs[g + 1][k]))])]
          IN [kind |-> "sample", segments |-> seg, input |-> ConcatAll(seg)]
=============================================================================
