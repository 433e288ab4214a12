---- MODULE MC_PropTable ----
EXTENDS PropTable, TLC
LevelsMC == <<0, 0, 1, 2>>
====
