------------------------------- MODULE UAX29 -------------------------------
(* The rules, and the clusters of a whole text. (In two modules because the *)
(* proof system does not read recursive definitions.)                       *)
EXTENDS UAX29Rules

\* The lengths, in units, of all clusters of s, in order.
ClusterLens(s) ==
  LET cuts == {i \in 1..Len(s) : Boundary(s, i)}
      RECURSIVE F(_, _)
      F(from, rest) ==
        IF rest = {} THEN <<>>
        ELSE LET m == CHOOSE x \in rest : \A y \in rest : x <= y
             IN  <<m - from>> \o F(m, rest \ {m})
  IN F(0, cuts)
=============================================================================
