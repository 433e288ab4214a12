--------------------------- MODULE TraceMachine ---------------------------
(***************************************************************************)
(* Runs of the real boundary machine (events begin / step / restart)       *)
(* against the declarative rules: the text so far is kept, and every       *)
(* answer is compared with Boundary.  Restarts after a boundary must make  *)
(* no difference, so they change nothing here.                             *)
(***************************************************************************)
EXTENDS LookBack, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, m, bad
tvars == <<i, s, m, bad>>
E == Trace[i]
TInit == i = 1 /\ s = <<>> /\ m = SOT /\ bad = ""
TBegin == /\ E.ev = "begin" /\ s' = <<E.c>> /\ m' = Advance(SOT, E.c) /\ UNCHANGED bad
TStep  == /\ E.ev = "step" /\ s # <<>>
          /\ s' = Append(s, E.c) /\ m' = Advance(m, E.c)
          /\ bad' = IF E.brk # Boundary(s', Len(s)) THEN "boundary differs from the rules"
                    ELSE IF E.brk # Break(m, E.c) THEN "boundary differs from the look-back automaton" ELSE ""
TRestart == E.ev = "restart" /\ UNCHANGED <<s, m, bad>>
TNext == i <= Len(Trace) /\ bad = "" /\ (TBegin \/ TStep \/ TRestart) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
