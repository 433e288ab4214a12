----------------------------- MODULE TraceRegen -----------------------------
(***************************************************************************)
(* A real regeneration against Regen: "classify" events hold what the      *)
(* module built with the current table observably does with every scalar   *)
(* value (as maximal ranges [first, last, behaviour]), "generate" events   *)
(* the outcome of a run of the generator (success, digest of its output).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, meaning, text, bad
tvars == <<i, meaning, text, bad>>
E == Trace[i]
TInit == i = 1 /\ meaning = <<>> /\ text = "" /\ bad = ""
TClassify == /\ E.ev = "classify"
             /\ bad' = IF meaning # <<>> /\ E.ranges # meaning THEN "the regenerated table says something else" ELSE ""
             /\ meaning' = E.ranges /\ UNCHANGED text
TGenerate == /\ E.ev = "generate"
             /\ bad' = IF ~E.ok THEN "the generator fails on the bundled data"
                       ELSE IF text # "" /\ E.digest # text THEN "two runs of the generator differ" ELSE ""
             /\ text' = E.digest /\ UNCHANGED meaning
\* A run whose output could not be written.
TFault == /\ E.ev = "fault"
          /\ bad' = IF E.ok THEN "a run that could not write its output claims success" ELSE ""
          /\ UNCHANGED <<meaning, text>>
TNext == i <= Len(Trace) /\ bad = "" /\ (TClassify \/ TGenerate \/ TFault) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
