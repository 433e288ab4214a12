----------------------------- MODULE MC_TestFile -----------------------------
(***************************************************************************)
(* All lines of up to MaxFrag fragments: the format's own laws are checked *)
(* on the specification, and every line with its outcome is printed for    *)
(* the driver to replay (when Export).                                     *)
(***************************************************************************)
EXTENDS TestFile, TLC, Json
CONSTANTS MaxFrag, Export
Frags == {<<195, 183>>, <<195, 151>>,                \* the two marks
          <<195, 183, 32, 48, 48, 65, 57, 32, 195, 151>>,   \* "÷ 00A9 ×"
          <<32, 195, 183, 32>>,                      \* " ÷ "
          <<48, 51, 48, 56>>,                        \* 0308
          <<49, 70, 54, 48, 48>>,                    \* 1F600
          <<50, 48, 48, 100>>,                       \* 200d
          <<68, 56, 48, 48>>,                        \* D800
          <<49, 49, 48, 48, 48, 48>>,                \* 110000
          <<49, 48, 48, 48, 48, 48, 48, 52, 49>>,    \* 100000041
          <<70, 70, 70, 70, 70, 70, 70, 70>>,        \* FFFFFFFF
          <<51, 49>>, <<71>>, <<45>>, <<43>>,        \* 31 G - +
          <<32>>, <<9>>, <<35>>, <<13>>}
VARIABLES line, n
Init == line = <<>> /\ n = 0
Next == n < MaxFrag /\ \E f \in Frags : line' = line \o f /\ n' = n + 1
Spec == Init /\ [][Next]_<<line, n>>
P == TestLine(line)
\* Each line also as the inside of a proper sample.
Wrapped == <<195, 183, 32>> \o line \o <<32, 195, 183>>
HasHash == Index(line, <<35>>) # 0
NoCR == \A k \in 1..Len(line) : line[k] # 13
Laws == /\ (NoCR /\ ~HasHash) =>
             /\ TestLine(line \o <<32, 35, 32, 195, 183>>) = P
             /\ TestLine(line \o <<32, 9>>) = P
             /\ TestLine(<<9>> \o line) = P
        /\ NoCR => TestLine(line \o <<13>>) = P
        /\ P.kind = "sample" => /\ P.segments # <<>> /\ ConcatAll(P.segments) = P.input
                               /\ \A k \in 1..Len(P.segments) : P.segments[k] # <<>>
Emit == Export => /\ PrintT("VECTOR " \o ToJson([line |-> line, want |-> P]))
                  /\ PrintT("VECTOR " \o ToJson([line |-> Wrapped, want |-> TestLine(Wrapped)]))
=============================================================================
