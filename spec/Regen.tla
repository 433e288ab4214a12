------------------------------- MODULE Regen -------------------------------
(***************************************************************************)
(* Regenerating the checked-in table (C16).  The working tree holds a      *)
(* table; a run of the generator reads the bundled data and replaces it.   *)
(* A table is abstracted to its bytes (text) and what it says (meaning).   *)
(* Variant "code" derives both from the data alone.  Negative controls:    *)
(* "order" lets the text depend on an arbitrary iteration order, "feed"    *)
(* lets a run depend on the table it is compiled with, "stale" starts from *)
(* a checked-in table that says something else than the data.  Writing can   *)
(* fail midway; "silent" claims success all the same.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Variant, MaxRuns
Data == "unicode 17"
Orders == {1, 2}
VARIABLES table, history
vars == <<table, history>>
Init == /\ table = [text |-> <<"text", IF Variant = "stale" THEN "older" ELSE Data, 1>>,
                    meaning |-> IF Variant = "stale" THEN "older" ELSE Data,
                    ok |-> TRUE]
        /\ history = <<table>>
Generate == \E o \in IF Variant = "order" THEN Orders ELSE {1} :
   /\ Len(history) <= MaxRuns
   /\ table' = [text |-> <<"text", Data, IF Variant = "feed" THEN table.text[3] + 1 ELSE o>>, meaning |-> Data, ok |-> TRUE]
   /\ history' = Append(history, table')
\* The disk is full, say: a part of the text arrives.
Fault ==
   /\ Len(history) <= MaxRuns
   /\ table' = [text |-> <<"text", "part", 1>>, meaning |-> "none", ok |-> Variant = "silent"]
   /\ history' = Append(history, table')
Spec == Init /\ [][Generate \/ Fault]_vars
Claimed == {i \in 1..Len(history) : history[i].ok}
\* Every table ever said to be complete says the same, and generated ones are identical.
SameMeaning == \A i \in Claimed : history[i].meaning = history[1].meaning
SameOutput  == \A i, j \in Claimed \ {1} : history[i].text = history[j].text
=============================================================================
