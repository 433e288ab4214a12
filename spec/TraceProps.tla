----------------------------- MODULE TraceProps -----------------------------
(***************************************************************************)
(* Everything the code says about property names and packings, recorded    *)
(* exhaustively, against Props.                                            *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, vals, packs, strs, bad
tvars == <<i, vals, packs, strs, bad>>
E == Trace[i]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TInit == i = 1 /\ vals = <<>> /\ packs = <<>> /\ strs = <<>> /\ bad = ""
\* break and pictographic values share one space
Space(kind) == IF kind = "incb" THEN "incb" ELSE "brk"
TValue == /\ E.ev = "value"
          /\ bad' = IF E.name \notin NamesOf(E.kind) THEN "HARNESS: unexpected name"
                    ELSE IF E.v = E.none THEN "existing name maps to no property"
                    ELSE IF \E k \in DOMAIN vals : k[1] = Space(E.kind) /\ vals[k] = E.v THEN "two names map to the same value"
                    ELSE IF E.string # E.name THEN "value does not map back to its name"
                    ELSE IF E.control # (E.kind = "gcb" /\ E.name \in Controls) THEN "wrong control classification"
                    ELSE ""
          /\ vals' = Put(vals, <<Space(E.kind), E.name>>, E.v) /\ UNCHANGED <<packs, strs>>
TOther == /\ E.ev = "other"
          /\ bad' = IF E.name \in NamesOf(E.kind) THEN "HARNESS: not an unknown name"
                    ELSE IF E.v # E.none THEN "unknown name maps to a property" ELSE ""
          /\ UNCHANGED <<vals, packs, strs>>
TPack == /\ E.ev = "pack"
         /\ bad' = IF E.gcb \notin Breaks \/ E.incb \notin Conjuncts THEN "HARNESS: unexpected names"
                   ELSE IF E.gcbBack # E.gcbV \/ E.incbBack # E.incbV THEN "component not recovered"
                   ELSE IF E.v \in DOMAIN packs THEN "two combinations are packed the same"
                   ELSE IF E.isError THEN "mistaken for the invalid-input marker"
                   ELSE IF E.string \in DOMAIN strs THEN "two combinations read the same"
                   ELSE IF E.control # (E.gcb \in Controls) THEN "wrong control classification"
                   ELSE ""
         /\ packs' = Put(packs, E.v, <<E.gcb, E.incb>>) /\ strs' = Put(strs, E.string, E.v)
         /\ UNCHANGED vals
TError == /\ E.ev = "error"
          /\ bad' = IF E.v \in DOMAIN packs THEN "the invalid-input marker is a combination"
                    ELSE IF E.string \in DOMAIN strs THEN "the invalid-input marker reads like a combination"
                    ELSE IF E.control \/ E.noneControl THEN "wrong control classification"
                    ELSE IF DOMAIN vals # ({<<"brk", n>> : n \in GCBNames \cup PictNames} \cup {<<"incb", n>> : n \in InCBNames})
                         \/ Cardinality(DOMAIN packs) # Cardinality(Breaks) * Cardinality(Conjuncts)
                    THEN "HARNESS: incomplete" ELSE ""
          /\ UNCHANGED <<vals, packs, strs>>
TNext == i <= Len(Trace) /\ bad = "" /\ (TValue \/ TOther \/ TPack \/ TError) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
