------------------------------ MODULE MC_Props ------------------------------
EXTENDS Props, TLC, SequencesExt
CONSTANT Shift     \* 16: conjunct values in the high nibble; 8: overlapping (negative control)
BrkSeq == <<"None">> \o SetToSeq(Breaks \ {"None"})
ConjSeq == <<"None">> \o SetToSeq(Conjuncts \ {"None"})
BrkVal  == [b \in Breaks |-> (CHOOSE k \in 1..Len(BrkSeq) : BrkSeq[k] = b) - 1]
ConjVal == [j \in Conjuncts |-> Shift * ((CHOOSE k \in 1..Len(ConjSeq) : ConjSeq[k] = j) - 1)]
\* bitwise or of values in disjoint bit positions is their sum; in general:
RECURSIVE BitOr(_, _)
BitOr(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x
               ELSE 2 * BitOr(x \div 2, y \div 2) + (IF (x % 2) + (y % 2) > 0 THEN 1 ELSE 0)
Pack == [p \in Breaks \X Conjuncts |-> BitOr(BrkVal[p[1]], ConjVal[p[2]])]
BrkOf  == [v \in 0..255 |-> v % 16]
ConjOf == [v \in 0..255 |-> v - (v % 16)]
VARIABLES b, j
Init == b \in Breaks /\ j \in Conjuncts
Next == UNCHANGED <<b, j>>
Spec == Init /\ [][Next]_<<b, j>>
Inv == /\ BrkOf[Pack[b, j]] = BrkVal[b] /\ ConjOf[Pack[b, j]] = ConjVal[j] /\ Pack[b, j] # 255
       /\ \A b2 \in Breaks, j2 \in Conjuncts : Pack[b, j] = Pack[b2, j2] => b = b2 /\ j = j2
All == Faithful(Pack, BrkOf, ConjOf, BrkVal, ConjVal, 255)
=============================================================================
