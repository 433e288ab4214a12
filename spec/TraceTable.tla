----------------------------- MODULE TraceTable -----------------------------
(***************************************************************************)
(* Recorded table generations: "dataset" (the entries of the three data    *)
(* files, and whether the generator refused them), then "lookup" events    *)
(* in the table it built.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, entries, bad
tvars == <<i, entries, bad>>
E == Trace[i]
TInit == i = 1 /\ entries = <<>> /\ bad = ""
Covers(e, cp) == e.lo <= cp /\ cp <= e.hi
Named(kinds, cp) == {entries[k].name : k \in {j \in 1..Len(entries) : entries[j].kind \in kinds /\ Covers(entries[j], cp)}}
Overlap(a, b) == a.lo <= b.hi /\ b.lo <= a.hi
Contradictory(es) == \E j, k \in 1..Len(es) : es[j].kind = "brk" /\ es[k].kind = "pict" /\ Overlap(es[j], es[k])
Says(names) == IF names = {} THEN "" ELSE CHOOSE n \in names : TRUE
TDataset == /\ E.ev = "dataset" /\ entries' = E.entries
            /\ bad' = IF E.refused = Contradictory(E.entries) THEN ""
                      ELSE IF E.refused THEN "proper data is refused" ELSE "contradictory data is accepted"
TLookup == /\ E.ev = "lookup" /\ UNCHANGED entries
           /\ bad' = IF Cardinality(Named({"brk", "pict"}, E.cp)) > 1 THEN "HARNESS: contradictory"
                     ELSE IF ~E.ok THEN "the lookup fails"
                     ELSE IF E.brk # Says(Named({"brk", "pict"}, E.cp)) \/ E.conj # Says(Named({"conj"}, E.cp))
                     THEN "the table says something else than the data" ELSE ""
TNext == i <= Len(Trace) /\ bad = "" /\ (TDataset \/ TLookup) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
