--------------------------- MODULE MC_Autoversion ---------------------------
EXTENDS Autoversion, Json, IOUtils, TLC
F(a, b, v) == [from |-> a, before |-> b, version |-> v]
Code    == {F(21, 27, 15), F(27, 28, 17)}
\* Negative controls.
Gap     == {F(21, 26, 15), F(27, 28, 17)}
Overlap == {F(21, 28, 15), F(27, 28, 17)}
NoEnd   == {F(21, 27, 15), F(27, 99, 17)}
Late    == {F(21, 28, 15), F(28, 29, 17)}
Early   == {F(1, 27, 15), F(27, 28, 17)}
ASSUME JsonSerialize(IOEnv.TABLES_OUT, [r \in 1..40 |-> UnicodeOf(r)])
=============================================================================
