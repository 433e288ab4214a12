----------------------------- MODULE Utf8Strict -----------------------------
(***************************************************************************)
(* Well-formed UTF-8 (Unicode table 3-7) and the sequence splitter (C14).  *)
(* Answer(d, eof): how many bytes the splitter takes, 0 for "need more".   *)
(* The same as an automaton over bytes (State/Step), for the driver.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
In(b, lo, hi) == lo <= b /\ b <= hi
C_(b) == In(b, 128, 191)
WellFormed(s) ==
  CASE Len(s) = 1 -> s[1] <= 127
    [] Len(s) = 2 -> In(s[1], 194, 223) /\ C_(s[2])
    [] Len(s) = 3 -> /\ C_(s[3])
                     /\ \/ s[1] = 224 /\ In(s[2], 160, 191)
                        \/ s[1] = 237 /\ In(s[2], 128, 159)
                        \/ (In(s[1], 225, 236) \/ In(s[1], 238, 239)) /\ C_(s[2])
    [] Len(s) = 4 -> /\ C_(s[3]) /\ C_(s[4])
                     /\ \/ s[1] = 240 /\ In(s[2], 144, 191)
                        \/ s[1] = 244 /\ In(s[2], 128, 143)
                        \/ In(s[1], 241, 243) /\ C_(s[2])
    [] OTHER -> FALSE
\* Some continuation of s is well-formed.  Filler bytes decide this: after the
\* second byte any continuation byte will do.
Seconds == {128, 144, 160}
Extendable(s) ==
  \/ Len(s) = 1 /\ \E x \in Seconds : WellFormed(s \o <<x>>) \/ WellFormed(s \o <<x, 128>>) \/ WellFormed(s \o <<x, 128, 128>>)
  \/ Len(s) = 2 /\ (WellFormed(s \o <<128>>) \/ WellFormed(s \o <<128, 128>>))
  \/ Len(s) = 3 /\ WellFormed(s \o <<128>>)
Pre(d, k) == SubSeq(d, 1, k)
Answer(d, eof) ==
  IF d = <<>> THEN 0
  ELSE IF \E k \in 1..4 : k <= Len(d) /\ WellFormed(Pre(d, k))
       THEN CHOOSE k \in 1..4 : k <= Len(d) /\ WellFormed(Pre(d, k))
  ELSE IF ~eof /\ Len(d) <= 3 /\ Extendable(d) THEN 0
  ELSE 1
RECURSIVE Tokens_(_)
Tokens_(d) == IF d = <<>> THEN <<>>
              ELSE LET k == Answer(d, TRUE) IN <<k>> \o Tokens_(SubSeq(d, k + 1, Len(d)))

\* The automaton: 0 start, 1..3 so many continuation bytes missing, 4..7 after
\* E0, ED, F0, F4; Acc and Rej end it.
Acc == 100
Rej == 101
Step(q, b) ==
  CASE q = 0 -> (IF b <= 127 THEN Acc ELSE IF In(b, 194, 223) THEN 1 ELSE IF b = 224 THEN 4
                 ELSE IF b = 237 THEN 5 ELSE IF In(b, 225, 239) THEN 2 ELSE IF b = 240 THEN 6
                 ELSE IF b = 244 THEN 7 ELSE IF In(b, 241, 243) THEN 3 ELSE Rej)
    [] q = 1 -> IF C_(b) THEN Acc ELSE Rej
    [] q = 2 -> IF C_(b) THEN 1 ELSE Rej
    [] q = 3 -> IF C_(b) THEN 2 ELSE Rej
    [] q = 4 -> IF In(b, 160, 191) THEN 1 ELSE Rej
    [] q = 5 -> IF In(b, 128, 159) THEN 1 ELSE Rej
    [] q = 6 -> IF In(b, 144, 191) THEN 2 ELSE Rej
    [] q = 7 -> IF In(b, 128, 143) THEN 2 ELSE Rej
=============================================================================
