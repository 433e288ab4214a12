---------------------------- MODULE TraceCalls ----------------------------
(***************************************************************************)
(* Trace validation for Calls.tla: start/return events of calls recorded   *)
(* from several goroutines, in a real interleaving.  The abstract function *)
(* Fun is whatever the first answer for an argument says; every later or   *)
(* concurrent answer must be the same, and the presented bytes must be     *)
(* what they were.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pending, fun, bad
tvars == <<i, pending, fun, bad>>
E == Trace[i]
TInit == i = 1 /\ pending = <<>> /\ fun = <<>> /\ bad = ""
Res(e) == [adv |-> e.adv, hasTok |-> e.hasTok, tok |-> e.tok, err |-> e.err]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TStart  == /\ E.ev = "start" /\ E.g \notin DOMAIN pending
           /\ pending' = Put(pending, E.g, [data |-> E.data, eof |-> E.eof])
           /\ UNCHANGED <<fun, bad>>
TReturn == /\ E.ev = "return" /\ E.g \in DOMAIN pending
           /\ LET a == pending[E.g] k == <<a.data, a.eof>> IN
              /\ bad' = IF E.data # a.data THEN "presented bytes changed during the call"
                        ELSE IF k \in DOMAIN fun /\ fun[k] # Res(E) THEN "answer differs from an earlier one"
                        ELSE ""
              /\ fun' = Put(fun, k, Res(E))
           /\ pending' = [g \in DOMAIN pending \ {E.g} |-> pending[g]]
TNext == i <= Len(Trace) /\ bad = "" /\ (TStart \/ TReturn) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
