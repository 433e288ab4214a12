----------------------------- MODULE MC_Machine -----------------------------
(***************************************************************************)
(* The implemented machine against the look-back monitors, with no bound   *)
(* on the length of the text: the product of both is finite, so TLC        *)
(* decides the equivalence for all texts.  After any boundary the machine  *)
(* may or may not be restarted (the scanner always does; a caller that     *)
(* keeps stepping never does).                                             *)
(***************************************************************************)
EXTENDS LookBack, Machine
CONSTANT MayContinue     \* TRUE: also explore not restarting at boundaries
VARIABLES m, st, ok
vars == <<m, st, ok>>
Init == m = SOT /\ st = "none" /\ ok = TRUE
Start(c) == m = SOT /\ m' = Advance(m, c) /\ st' = Begin(c) /\ ok' = TRUE
Step(c, restart) ==
  /\ m # SOT
  /\ LET b == Split(st, m.prev, c) IN
     /\ restart => b
     /\ (b /\ ~restart) => MayContinue
     /\ m' = Advance(m, c)
     /\ st' = IF restart THEN Begin(c) ELSE NextState(st, c)
     /\ ok' = (b <=> Break(m, c))
Next == \E c \in Classes : Start(c) \/ \E r \in BOOLEAN : Step(c, r)
Spec == Init /\ [][Next]_vars
Correct == ok
TypeOK == m \in Monitors /\ st \in States \cup {"none"}
=============================================================================
