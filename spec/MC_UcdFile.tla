----------------------------- MODULE MC_UcdFile -----------------------------
(***************************************************************************)
(* All lines of up to MaxFrag fragments: the format's own laws are checked *)
(* on the specification, and every line with its outcome is printed for    *)
(* the driver to replay (when Export).                                     *)
(***************************************************************************)
EXTENDS UcdFile, TLC, Json
CONSTANTS MaxFrag, Export
Frags == {<<48, 48, 52, 49>>,                        \* 0041
          <<52, 49, 46, 46, 53, 97>>,                \* 41..5a
          <<46, 46>>, <<46>>, <<48>>, <<102>>, <<71>>, \* .. . 0 f G
          <<49, 48, 70, 70, 70, 70>>,                \* 10FFFF
          <<49, 49, 48, 48, 48, 48>>,                \* 110000
          <<49, 48, 48, 48, 48, 48, 48, 52, 49>>,    \* 100000041
          <<70, 70, 70, 70, 70, 70, 70, 70>>,        \* FFFFFFFF
          <<59>>, <<32>>, <<9>>,                     \* ; blank tab
          <<67, 82>>,                                \* CR
          <<59, 32, 76, 105, 110, 107, 101, 114>>,   \* ; Linker
          <<35>>, <<13>>, <<45>>, <<43>>}            \* # \r - +
VARIABLES line, n
Init == line = <<>> /\ n = 0
Next == n < MaxFrag /\ \E f \in Frags : line' = line \o f /\ n' = n + 1
Spec == Init /\ [][Next]_<<line, n>>
P == UcdLine(line)
HasHash == Index(line, <<35>>) # 0
NoCR == \A k \in 1..Len(line) : line[k] # 13
Laws == /\ (NoCR /\ ~HasHash) =>
             /\ UcdLine(line \o <<35, 59, 32, 48>>) = P          \* a comment
             /\ UcdLine(line \o <<32, 9>>) = P                   \* trailing blanks
             /\ UcdLine(<<32>> \o line) = P                      \* leading blanks
        /\ NoCR => UcdLine(line \o <<13>>) = P                   \* either line ending
        /\ P.kind = "entry" => P.start <= P.last /\ P.last <= 1114111 /\ Len(P.fields) >= 1
\* Each line also as the start of a data line.
Completed == line \o <<59, 32, 90>>
Emit == Export => /\ PrintT("VECTOR " \o ToJson([line |-> line, want |-> P]))
                  /\ PrintT("VECTOR " \o ToJson([line |-> Completed, want |-> UcdLine(Completed)]))
=============================================================================
