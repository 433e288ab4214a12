--------------------------- MODULE MC_Utf8Strict ---------------------------
(* The automaton agrees with the definition on every byte string, and the  *)
(* answers are stable; then the automaton is handed to the driver.         *)
EXTENDS Utf8Strict, Json, IOUtils, TLC
CONSTANT MaxLen
Alphabet == {0, 97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
RECURSIVE Run(_, _, _, _)
Run(d, k, q, eof) == \* k bytes consumed, in state q
  IF k = Len(d) THEN IF k = 0 THEN 0 ELSE IF eof THEN 1 ELSE 0
  ELSE LET r == Step(q, d[k + 1]) IN
       IF r = Acc THEN k + 1 ELSE IF r = Rej THEN 1 ELSE Run(d, k + 1, r, eof)
VARIABLES d
Init == d = <<>>
Next == Len(d) < MaxLen /\ \E b \in Alphabet : d' = Append(d, b)
Spec == Init /\ [][Next]_d
Agree == \A eof \in BOOLEAN : Run(d, 0, 0, eof) = Answer(d, eof)
Bounded == Answer(d, FALSE) \in 0..4 /\ (d # <<>> => Answer(d, TRUE) \in 1..4)
\* An answer given is final: it is the same however the data continues.
Stable == [][Answer(d, FALSE) # 0 => Answer(d', FALSE) = Answer(d, FALSE) /\ Answer(d', TRUE) = Answer(d, FALSE)]_d
\* Asking for more is never in vain: some continuation decides otherwise than
\* the end of input would.
NotIdle == (d # <<>> /\ Answer(d, FALSE) = 0) =>
   \E x \in Alphabet, y \in Alphabet, z \in Alphabet :
      \E e \in {<<x>>, <<x, y>>, <<x, y, z>>} : Answer(d \o e, TRUE) # 1
Table == [q \in 1..8 |-> [b \in 1..256 |-> Step(q - 1, b - 1)]]
             
ASSUME JsonSerialize(IOEnv.TABLES_OUT, Table)
=============================================================================
