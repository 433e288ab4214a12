---------------------------- MODULE Units_proofs ----------------------------
(***************************************************************************)
(* The units of byte strings of every length (checked by the TLA+ proof    *)
(* system): a decision about a unit is final; where none is possible two   *)
(* continuations differ.                                                   *)
(***************************************************************************)
EXTENDS Utf8Rules, TLAPS

Byte == 0..255

LEMMA Lens == ASSUME NEW b \in Byte PROVE LeadLen(b) \in 0..4
  BY DEF LeadLen, Byte

\* How many bytes of the sequence at position i are on hand.
Have(d, i) == LET n == LeadLen(d[i])
                  avail == Len(d) - i + 1
              IN IF avail < n THEN avail ELSE n
Broken(d, i) == \E k \in 1..(Have(d, i) - 1) : ~Cont(d[i + k])

LEMMA UnitCases == ASSUME NEW d \in Seq(Byte), NEW i \in 1..Len(d), NEW eof \in BOOLEAN
  PROVE LET n == LeadLen(d[i]) IN
    UnitAt(d, i, eof) =
      IF n = 0 \/ Broken(d, i) THEN [kind |-> "err", len |-> 1]
      ELSE IF i + n - 1 <= Len(d) THEN [kind |-> "char", len |-> n]
      ELSE IF eof THEN [kind |-> "err", len |-> 1] ELSE [kind |-> "more", len |-> 0]
<1>1. d[i] \in Byte /\ Len(d) \in Nat OBVIOUS
<1>2. LeadLen(d[i]) \in 0..4 BY <1>1, Lens
<1> QED BY <1>1, <1>2 DEF UnitAt, Broken, Have

\* A unit that is decided is decided for good.
THEOREM UnitFinal == ASSUME NEW d \in Seq(Byte), NEW e \in Seq(Byte), NEW i \in 1..Len(d),
                            NEW eof \in BOOLEAN, UnitAt(d, i, FALSE).kind # "more"
  PROVE UnitAt(d \o e, i, eof) = UnitAt(d, i, FALSE)
<1> DEFINE t == d \o e
           n == LeadLen(d[i])
<1>1. /\ t \in Seq(Byte) /\ Len(t) = Len(d) + Len(e) /\ Len(d) \in Nat /\ Len(e) \in Nat /\ i \in 1..Len(t)
      /\ \A j \in 1..Len(d) : t[j] = d[j]
  OBVIOUS
<1>2. n \in 0..4 BY Lens
<1>3. LeadLen(t[i]) = n BY <1>1
<1> SUFFICES UnitAt(t, i, eof) = UnitAt(d, i, FALSE) OBVIOUS
<1> HIDE DEF t
<1>4. CASE n = 0
  BY <1>4, <1>1, <1>3, UnitCases
<1>5. CASE n # 0 /\ Broken(d, i)
  <2>1. Have(d, i) <= Have(t, i) /\ Have(d, i) \in Int /\ Have(t, i) \in Int
    BY <1>1, <1>2, <1>3 DEF Have, n
  <2>2. PICK k \in 1..(Have(d, i) - 1) : ~Cont(d[i + k]) BY <1>5 DEF Broken
  <2>3. i + k \in 1..Len(d) BY <2>2, <1>1, <1>2 DEF Have, n
  <2>4. Broken(t, i) BY <2>1, <2>2, <2>3, <1>1 DEF Broken
  <2> QED BY <1>5, <2>4, <1>1, <1>3, UnitCases
<1>6. CASE n # 0 /\ ~Broken(d, i)
  <2>1. i + n - 1 <= Len(d) BY <1>6, <1>2, UnitCases DEF n
  <2>2. Have(d, i) = n /\ Have(t, i) = n BY <2>1, <1>1, <1>2, <1>3 DEF Have, n
  <2>3. \A k \in 1..(n - 1) : i + k \in 1..Len(d) BY <2>1, <1>1, <1>2
  <2>4. ~Broken(t, i) BY <1>6, <2>2, <2>3, <1>1 DEF Broken
  <2>5. i + n - 1 <= Len(t) BY <2>1, <1>1, <1>2
  <2> QED BY <1>6, <2>1, <2>4, <2>5, <1>1, <1>2, <1>3, UnitCases DEF n
<1> QED BY <1>4, <1>5, <1>6

\* Waiting is needed: what is not decided can still become either.
THEOREM UnitOpen == ASSUME NEW d \in Seq(Byte), NEW i \in 1..Len(d), UnitAt(d, i, FALSE).kind = "more"
  PROVE /\ UnitAt(d, i, TRUE).kind = "err"
        /\ \E e \in Seq(Byte) : UnitAt(d \o e, i, FALSE).kind = "char"
        /\ UnitAt(Append(d, 65), i, FALSE).kind = "err"
<1> DEFINE n == LeadLen(d[i])
           m == n - (Len(d) - i + 1)
           e == [k \in 1..m |-> 128]
           t == d \o e
           u == Append(d, 65)
<1>1. n \in 0..4 /\ Len(d) \in Nat BY Lens
<1>2. n # 0 /\ ~Broken(d, i) /\ ~(i + n - 1 <= Len(d))
  BY <1>1, UnitCases
<1>3. m \in 1..4 BY <1>1, <1>2
<1>4. e \in Seq(Byte) /\ Len(e) = m BY <1>3 DEF Byte
<1>5. /\ t \in Seq(Byte) /\ Len(t) = Len(d) + m /\ i \in 1..Len(t)
      /\ \A j \in 1..Len(d) : t[j] = d[j]
      /\ \A j \in (Len(d) + 1)..Len(t) : t[j] = 128
  BY <1>3, <1>4, <1>1
<1>6. /\ u \in Seq(Byte) /\ Len(u) = Len(d) + 1 /\ i \in 1..Len(u)
      /\ \A j \in 1..Len(d) : u[j] = d[j]
      /\ u[Len(d) + 1] = 65
  BY <1>1 DEF Byte
<1>7. Have(d, i) = Len(d) - i + 1 BY <1>1, <1>2 DEF Have
<1>8. UnitAt(d, i, TRUE).kind = "err" BY <1>1, <1>2, UnitCases
<1>9. UnitAt(t, i, FALSE).kind = "char"
  <2>1. LeadLen(t[i]) = n BY <1>5
  <2>2. i + n - 1 = Len(t) BY <1>5, <1>1, <1>3
  <2>3. Have(t, i) = n BY <2>1, <2>2, <1>1, <1>5 DEF Have
  <2>4. ~Broken(t, i)
    <3> SUFFICES ASSUME NEW k \in 1..(n - 1) PROVE Cont(t[i + k]) BY <2>3, <2>1 DEF Broken
    <3>1. CASE i + k <= Len(d)
      <4>1. k \in 1..(Have(d, i) - 1) /\ i + k \in 1..Len(d) BY <3>1, <1>7, <1>1
      <4> QED BY <4>1, <1>2, <1>5 DEF Broken
    <3>2. CASE i + k > Len(d)
      <4>1. i + k \in (Len(d) + 1)..Len(t) BY <3>2, <2>2, <1>1, <1>5
      <4> QED BY <4>1, <1>5 DEF Cont
    <3> QED BY <3>1, <3>2, <1>1
  <2> QED BY <2>1, <2>2, <2>4, <1>1, <1>2, <1>5, UnitCases
<1>10. UnitAt(u, i, FALSE).kind = "err"
  <2>1. LeadLen(u[i]) = n BY <1>6
  <2>2. Have(u, i) = Len(d) - i + 2 BY <2>1, <1>6, <1>1, <1>2 DEF Have
  <2>3. Len(d) + 1 - i \in 1..(Have(u, i) - 1) /\ ~Cont(u[i + (Len(d) + 1 - i)])
    BY <2>2, <1>1, <1>6 DEF Cont
  <2>4. Broken(u, i) BY <2>3 DEF Broken
  <2> QED BY <2>1, <2>4, <1>1, <1>6, UnitCases
<1> HIDE DEF t, e, u, m
<1> QED BY <1>4, <1>8, <1>9, <1>10 DEF t, u
=============================================================================
