----------------------------- MODULE TraceFile -----------------------------
(* The part that TraceUcdFile and TraceTestFile share. *)
EXTENDS LineUtil, Json, IOUtils, TLC
CONSTANT MeaningOf(_)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, kinds, at, bad
tvars == <<i, kinds, at, bad>>
E == Trace[i]
TInit == i = 1 /\ kinds = <<>> /\ at = {} /\ bad = ""
Silent(m) == m.kind \in {"none", "open"}
\* Numbers of lines after which the reader may stand when line k + 1 is the
\* next one it gets anything from.
Skips(k) == {j \in k..Len(kinds) : \A l \in (k + 1)..j : Silent(kinds[l])}
Starts == UNION {Skips(k) : k \in at}
Yields(ok(_)) == {j + 1 : j \in {k \in Starts : k < Len(kinds) /\ (ok(kinds[k + 1]) \/ kinds[k + 1].kind = "open")}}
TOpen == /\ E.ev = "open"
         /\ kinds' = LET ls == Lines(E.file) IN [k \in 1..Len(ls) |-> MeaningOf(ls[k])]
         /\ at' = {0} /\ UNCHANGED bad
TRecord == /\ E.ev = "record"
           /\ LET Ok(m) == m.kind = E.rec.kind /\ m = E.rec IN at' = Yields(Ok)
           /\ bad' = IF at' = {} THEN "entry that is not the file's next record" ELSE ""
           /\ UNCHANGED kinds
TError == /\ E.ev = "error"
          /\ LET Ok(m) == m.kind = "error" IN at' = Yields(Ok)
          /\ bad' = IF at' = {} THEN "error without a malformed line" ELSE ""
          /\ UNCHANGED kinds
TEof == /\ E.ev = "eof" /\ at' = {} /\ UNCHANGED kinds
        /\ bad' = IF Len(kinds) \in Starts THEN "" ELSE "end of file before the last record"
TNext == i <= Len(Trace) /\ bad = "" /\ (TOpen \/ TRecord \/ TError \/ TEof) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
