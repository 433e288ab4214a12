------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The streams of StreamCore, over the specification's split function.     *)
(***************************************************************************)
EXTENDS SplitFunc, StreamCore  \* with Answers <- SplitAnswers

---------------------------------------------------------------------------
Want == TokenLens(input)
Sum(q) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE q[i] + F(i - 1) IN F(Len(q))
IsPre(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

TypeOK    == st <= rd /\ rd <= Len(input) /\ phase \in {"read", "call", "done"}
\* C03: no byte lost or duplicated, no empty token, never stuck at the end.
Lossless  == Sum(out) = st /\ \A i \in 1..Len(out) : out[i] > 0
\* C05/C06: whatever has been delivered, only final tokens are reported.
Final     == IsPre(out, Want)
\* C03/C05: at the end, exactly the tokens of the whole input.
Complete  == phase = "done" => out = Want /\ st = Len(input)
\* C04: a malformed byte is a token of its own.
Isolated  == LET us == UnitsOf(input, TRUE) IN
   \A k \in 1..Len(us) : us[k].kind = "err" =>
      \A i \in 1..Len(out) :
         LET a == Sum(SubSeq(out, 1, i - 1)) + 1 IN
         (a <= us[k].at /\ us[k].at < a + out[i]) => (a = us[k].at /\ out[i] = 1)
\* C07: after asking for more, nothing on hand is decided.
NotWithheld == (phase = "read" /\ rd > st) => 0 \in Answers(Window, FALSE)
\* C03/C05: every schedule ends.
Terminates == <>(phase = "done")
=============================================================================
