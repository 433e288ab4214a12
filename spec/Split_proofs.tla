---------------------------- MODULE Split_proofs ----------------------------
(***************************************************************************)
(* The specification's split function for byte strings of every length     *)
(* (checked by the TLA+ proof system): it fulfils the contract that        *)
(* Delivery_proofs asks for.  So its tokens are final (C06), do not depend *)
(* on the delivery (C05), and cover the input (C03).                       *)
(***************************************************************************)
EXTENDS SplitRules, Final_proofs, Units_proofs, NaturalsInduction, SequenceTheorems

\* All the proofs need to know of the classification.
ASSUME Classification ==
  /\ \A c \in Nat : ClassOf(c) \in Classes
  /\ \A l \in Nat, h \in Nat : \A c \in l..h : ClassOf(c) \in ClassesIn(l, h)

Unit == [kind : {"char", "err"}, at : Nat, len : Nat]

---------------------------------------------------------------------------
(* Single units.                                                           *)
LEMMA Shape == ASSUME NEW x \in Seq(Byte), NEW i \in 1..Len(x), NEW f \in BOOLEAN, NEW u, u = UnitAt(x, i, f)
  PROVE /\ u.kind \in {"char", "err", "more"}
        /\ u.kind = "err" => u = [kind |-> "err", len |-> 1]
        /\ u.kind = "char" => /\ u.len = LeadLen(x[i]) /\ u.len \in 1..4 /\ i + u.len - 1 <= Len(x)
                              /\ \A k \in 1..(u.len - 1) : Cont(x[i + k])
        /\ u.kind = "more" => /\ ~f /\ LeadLen(x[i]) \in 2..4 /\ i + LeadLen(x[i]) - 1 > Len(x)
                              /\ \A k \in 1..(Len(x) - i) : Cont(x[i + k])
<1>1. x[i] \in Byte /\ Len(x) \in Nat /\ LeadLen(x[i]) \in 0..4 BY Lens
<1> DEFINE n == LeadLen(x[i])
<1> HIDE DEF n
<1>2. n \in 0..4 BY <1>1 DEF n
<1>3. u = IF n = 0 \/ Broken(x, i) THEN [kind |-> "err", len |-> 1]
          ELSE IF i + n - 1 <= Len(x) THEN [kind |-> "char", len |-> n]
          ELSE IF f THEN [kind |-> "err", len |-> 1] ELSE [kind |-> "more", len |-> 0]
  BY <1>1, UnitCases DEF n
<1>4. CASE n = 0 \/ Broken(x, i) BY <1>3, <1>4
<1>5. CASE ~(n = 0 \/ Broken(x, i)) /\ i + n - 1 <= Len(x)
  <2>1. u = [kind |-> "char", len |-> n] BY <1>3, <1>5
  <2>2. Have(x, i) = n BY <1>5, <1>1, <1>2 DEF Have, n
  <2>3. \A k \in 1..(n - 1) : Cont(x[i + k]) BY <1>5, <2>2 DEF Broken
  <2> QED BY <2>1, <2>3, <1>5, <1>2 DEF n
<1>6. CASE ~(n = 0 \/ Broken(x, i)) /\ ~(i + n - 1 <= Len(x)) /\ f BY <1>3, <1>6
<1>7. CASE ~(n = 0 \/ Broken(x, i)) /\ ~(i + n - 1 <= Len(x)) /\ ~f
  <2>1. u = [kind |-> "more", len |-> 0] BY <1>3, <1>7
  <2>2. Have(x, i) = Len(x) - i + 1 BY <1>7, <1>1, <1>2 DEF Have, n
  <2>3. \A k \in 1..(Len(x) - i) : Cont(x[i + k]) BY <1>7, <2>2, <1>1 DEF Broken
  <2>4. n \in 2..4 BY <1>7, <1>2, <1>1
  <2> QED BY <2>1, <2>3, <2>4, <1>7, <1>1 DEF n
<1> QED BY <1>4, <1>5, <1>6, <1>7

LEMMA LeadRange == ASSUME NEW b \in Byte
  PROVE /\ LeadLen(b) = 1 => b \in 0..127
        /\ LeadLen(b) = 2 => b \in 192..223
        /\ LeadLen(b) = 3 => b \in 224..239
        /\ LeadLen(b) = 4 => b \in 240..247
  BY DEF LeadLen, Byte

LEMMA Points == ASSUME NEW x \in Seq(Byte), NEW i \in 1..Len(x), NEW n \in 1..4, LeadLen(x[i]) = n, i + n - 1 <= Len(x),
                       \A k \in 1..(n - 1) : Cont(x[i + k])
  PROVE CodePoint(x, i, n) \in Nat
<1>1. x[i] \in Byte BY DEF Byte
<1>2. CASE n = 1 BY <1>2, <1>1, LeadRange DEF CodePoint
<1>3. CASE n = 2
  <2>1. x[i] \in 192..223 BY <1>3, <1>1, LeadRange
  <2>2. 1 \in 1..(n - 1) /\ i + 1 \in 1..Len(x) BY <1>3
  <2>3. x[i + 1] \in Byte /\ Cont(x[i + 1]) BY <2>2 DEF Byte
  <2> QED BY <1>3, <2>1, <2>3 DEF CodePoint, Cont, Byte
<1>4. CASE n = 3
  <2>1. x[i] \in 224..239 BY <1>4, <1>1, LeadRange
  <2>2. 1 \in 1..(n - 1) /\ 2 \in 1..(n - 1) /\ i + 1 \in 1..Len(x) /\ i + 2 \in 1..Len(x) BY <1>4
  <2>3. x[i + 1] \in Byte /\ Cont(x[i + 1]) /\ x[i + 2] \in Byte /\ Cont(x[i + 2]) BY <2>2 DEF Byte
  <2> QED BY <1>4, <2>1, <2>3 DEF CodePoint, Cont, Byte
<1>5. CASE n = 4
  <2>1. x[i] \in 240..247 BY <1>5, <1>1, LeadRange
  <2>2. 1 \in 1..(n - 1) /\ 2 \in 1..(n - 1) /\ 3 \in 1..(n - 1) /\ i + 1 \in 1..Len(x) /\ i + 2 \in 1..Len(x) /\ i + 3 \in 1..Len(x) BY <1>5
  <2>3. x[i + 1] \in Byte /\ Cont(x[i + 1]) /\ x[i + 2] \in Byte /\ Cont(x[i + 2]) /\ x[i + 3] \in Byte /\ Cont(x[i + 3]) BY <2>2 DEF Byte
  <2> QED BY <1>5, <2>1, <2>3 DEF CodePoint, Cont, Byte
<1> QED BY <1>2, <1>3, <1>4, <1>5

---------------------------------------------------------------------------
(* Runs of units.                                                          *)
LEMMA RunUnit == ASSUME NEW x \in Seq(Byte), NEW f \in BOOLEAN, NEW us \in Seq(Unit), Run(us, x, f), NEW k \in 1..Len(us)
  PROVE /\ us[k].at \in 1..Len(x) /\ us[k].len \in 1..4 /\ us[k].kind \in {"char", "err"}
        /\ us[k].at + us[k].len - 1 <= Len(x)
        /\ us[k].kind = "err" => us[k].len = 1
        /\ Bytes(us, k) \in 1..Len(x) /\ Bytes(us, k) >= us[k].at
        /\ us[k].at = Bytes(us, k - 1) + 1
        /\ us[k] = [kind |-> us[k].kind, at |-> us[k].at, len |-> us[k].len]
        /\ UnitClass(x, us[k]) \in Units
<1>1. us[k] \in Unit /\ us[k].kind \in {"char", "err"} /\ us[k].at \in Nat /\ us[k].len \in Nat
      /\ us[k] = [kind |-> us[k].kind, at |-> us[k].at, len |-> us[k].len] /\ Len(x) \in Nat /\ k \in Nat /\ k >= 1
  BY DEF Unit
<1> DEFINE i == us[k].at
           u == UnitAt(x, i, f)
<1>2. i = Bytes(us, k - 1) + 1 /\ i <= Len(x) /\ u = [kind |-> us[k].kind, len |-> us[k].len] BY DEF Run
<1>3. i >= 1
  <2>1. CASE k = 1 BY <2>1, <1>2 DEF Bytes
  <2>2. CASE k > 1
    <3>1. k - 1 \in 1..Len(us) BY <2>2, <1>1
    <3>2. us[k - 1] \in Unit BY <3>1
    <3>3. us[k - 1].at \in Nat /\ us[k - 1].len \in Nat BY <3>2 DEF Unit
    <3>4. UnitAt(x, us[k - 1].at, f) = [kind |-> us[k - 1].kind, len |-> us[k - 1].len] BY <3>1 DEF Run
    <3>5. Bytes(us, k - 1) = us[k - 1].at + us[k - 1].len - 1 BY <2>2, <1>1 DEF Bytes
    <3>6. i \in Nat /\ i = us[k - 1].at + us[k - 1].len BY <3>3, <3>5, <1>2, <1>1
    <3>7. ~(i = 0) 
      <4> SUFFICES ASSUME i = 0 PROVE FALSE OBVIOUS
      <4>1. us[k - 1].len = 0 BY <3>3, <3>6
      <4>2. UnitAt(x, us[k - 1].at, f).len # 0 \/ UnitAt(x, us[k - 1].at, f).kind = "more"
        BY DEF UnitAt
      <4>3. us[k - 1].kind # "more" BY <3>1 DEF Run
      <4> QED BY <4>1, <4>2, <4>3, <3>4
    <3> QED BY <3>6, <3>7
  <2> QED BY <2>1, <2>2, <1>1
<1>4. i \in 1..Len(x) BY <1>1, <1>2, <1>3
<1>5. u.kind = us[k].kind /\ u.len = us[k].len BY <1>2
<1> HIDE DEF i, u
<1>6. /\ u.kind = "err" => u = [kind |-> "err", len |-> 1]
      /\ u.kind = "char" => /\ u.len = LeadLen(x[i]) /\ u.len \in 1..4 /\ i + u.len - 1 <= Len(x)
                            /\ \A j \in 1..(u.len - 1) : Cont(x[i + j])
  BY <1>4, Shape DEF u
<1>7. us[k].len \in 1..4 /\ i + us[k].len - 1 <= Len(x) /\ (us[k].kind = "err" => us[k].len = 1) BY <1>1, <1>4, <1>5, <1>6
<1>8. Bytes(us, k) = i + us[k].len - 1 BY <1>1 DEF Bytes, i
<1>9. UnitClass(x, us[k]) \in Units
  <2>1. CASE us[k].kind = "err" BY <2>1 DEF UnitClass, Units
  <2>2. CASE us[k].kind # "err"
    <3>1. u.kind = "char" /\ u.len = us[k].len BY <2>2, <1>1, <1>5
    <3>2. CodePoint(x, i, u.len) \in Nat BY <3>1, <1>4, <1>6, Points
    <3>3. UnitClass(x, us[k]) = ClassOf(CodePoint(x, i, u.len)) BY <2>2, <3>1 DEF UnitClass, i
    <3> QED BY <3>2, <3>3, Classification DEF Units
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>4, <1>7, <1>8, <1>9 DEF i

LEMMA TextOf == ASSUME NEW x \in Seq(Byte), NEW f \in BOOLEAN, NEW us \in Seq(Unit), Run(us, x, f)
  PROVE Classified(us, x) \in Seq(Units) /\ Len(Classified(us, x)) = Len(us)
<1>1. Len(us) \in Nat OBVIOUS
<1>2. \A k \in 1..Len(us) : UnitClass(x, us[k]) \in Units BY RunUnit
<1>3. Classified(us, x) \in [1..Len(us) -> Units] BY <1>2 DEF Classified
<1> QED BY <1>1, <1>3

LEMMA CP == ASSUME NEW x, NEW i
  PROVE /\ CodePoint(x, i, 1) = x[i]
        /\ CodePoint(x, i, 2) = (x[i] - 192) * 64 + (x[i+1] - 128)
        /\ CodePoint(x, i, 3) = (x[i] - 224) * 4096 + (x[i+1] - 128) * 64 + (x[i+2] - 128)
        /\ CodePoint(x, i, 4) = (x[i] - 240) * 262144 + (x[i+1] - 128) * 4096 + (x[i+2] - 128) * 64 + (x[i+3] - 128)
<1>1. CodePoint(x, i, 1) = x[i] BY DEF CodePoint
<1>2. CodePoint(x, i, 2) = (x[i] - 192) * 64 + (x[i+1] - 128) BY DEF CodePoint
<1>3. CodePoint(x, i, 3) = (x[i] - 224) * 4096 + (x[i+1] - 128) * 64 + (x[i+2] - 128) BY DEF CodePoint
<1>4. CodePoint(x, i, 4) = (x[i] - 240) * 262144 + (x[i+1] - 128) * 4096 + (x[i+2] - 128) * 64 + (x[i+3] - 128) BY DEF CodePoint
<1> QED BY <1>1, <1>2, <1>3, <1>4

LEMMA SamePoint == ASSUME NEW x \in Seq(Byte), NEW y \in Seq(Byte), NEW a \in 1..Len(x), NEW n \in 1..4, a + n - 1 <= Len(x)
  PROVE CodePoint(x \o y, a, n) = CodePoint(x, a, n)
<1> DEFINE z == x \o y
<1>1. a \in Nat /\ n \in Nat /\ Len(x) \in Nat OBVIOUS
<1>2. ASSUME NEW j \in 1..Len(x) PROVE z[j] = x[j] OBVIOUS
<1> HIDE DEF z
<1>3. ASSUME NEW j \in 0..(n - 1) PROVE z[a + j] = x[a + j]
  <2>1. a + j \in 1..Len(x) BY <1>1
  <2> QED BY <2>1, <1>2
<1>4. a + 0 = a BY <1>1
<1>5. CASE n = 1
  <2>1. 0 \in 0..(n - 1) BY <1>5
  <2>2. z[a] = x[a] BY <2>1, <1>3, <1>4
  <2> QED BY <2>2, <1>5, CP
<1>6. CASE n = 2
  <2>1. 0 \in 0..(n - 1) /\ 1 \in 0..(n - 1) BY <1>6
  <2>2. z[a] = x[a] /\ z[a + 1] = x[a + 1] BY <2>1, <1>3, <1>4
  <2> QED BY <2>2, <1>6, CP
<1>7. CASE n = 3
  <2>1. 0 \in 0..(n - 1) /\ 1 \in 0..(n - 1) /\ 2 \in 0..(n - 1) BY <1>7
  <2>2. z[a] = x[a] /\ z[a + 1] = x[a + 1] /\ z[a + 2] = x[a + 2] BY <2>1, <1>3, <1>4
  <2> QED BY <2>2, <1>7, CP
<1>8. CASE n = 4
  <2>1. 0 \in 0..(n - 1) /\ 1 \in 0..(n - 1) /\ 2 \in 0..(n - 1) /\ 3 \in 0..(n - 1) BY <1>8
  <2>2. z[a] = x[a] /\ z[a + 1] = x[a + 1] /\ z[a + 2] = x[a + 2] /\ z[a + 3] = x[a + 3] BY <2>1, <1>3, <1>4
  <2> QED BY <2>2, <1>8, CP
<1>9. n = 1 \/ n = 2 \/ n = 3 \/ n = 4 BY <1>1
<1> QED BY <1>5, <1>6, <1>7, <1>8, <1>9

\* A run stays one whatever follows, with the same classes.
LEMMA RunGrows == ASSUME NEW x \in Seq(Byte), NEW y \in Seq(Byte), NEW f \in BOOLEAN, NEW us \in Seq(Unit), Run(us, x, FALSE)
  PROVE Run(us, x \o y, f) /\ Classified(us, x \o y) = Classified(us, x)
<1> DEFINE z == x \o y
<1>1. z \in Seq(Byte) /\ Len(z) = Len(x) + Len(y) /\ Len(x) \in Nat /\ Len(y) \in Nat /\ \A j \in 1..Len(x) : z[j] = x[j] OBVIOUS
<1>2. ASSUME NEW k \in 1..Len(us)
      PROVE us[k].at <= Len(z) /\ UnitAt(z, us[k].at, f) = UnitAt(x, us[k].at, FALSE)
            /\ UnitClass(z, us[k]) = UnitClass(x, us[k])
  <2>1. us[k].at \in 1..Len(x) /\ us[k].len \in 1..4 /\ us[k].at + us[k].len - 1 <= Len(x) BY RunUnit
  <2>2. UnitAt(x, us[k].at, FALSE).kind # "more" BY DEF Run
  <2>3. UnitAt(z, us[k].at, f) = UnitAt(x, us[k].at, FALSE) BY <2>1, <2>2, UnitFinal
  <2>4. CodePoint(z, us[k].at, us[k].len) = CodePoint(x, us[k].at, us[k].len) BY <2>1, SamePoint
  <2> HIDE DEF z
  <2> QED BY <2>1, <2>3, <2>4, <1>1 DEF UnitClass
<1> HIDE DEF z
<1>3. Run(us, z, f) BY <1>2 DEF Run
<1>4. Classified(us, z) = Classified(us, x) BY <1>2 DEF Classified
<1> QED BY <1>3, <1>4 DEF z

\* All runs agree with the whole as far as they go.
LEMMA Prefix == ASSUME NEW x \in Seq(Byte), NEW f \in BOOLEAN, NEW us \in Seq(Unit), NEW vs \in Seq(Unit), Run(us, x, f), UnitsAre(vs, x, f)
  PROVE Len(us) <= Len(vs) /\ \A k \in 1..Len(us) : us[k] = vs[k]
<1>1. Run(vs, x, f) /\ Len(us) \in Nat /\ Len(vs) \in Nat /\ Len(x) \in Nat BY DEF UnitsAre
<1> DEFINE P(k) == k <= Len(us) => k <= Len(vs) /\ (k > 0 => us[k] = vs[k])
<1>2. \A k \in Nat : P(k)
  <2>1. P(0) BY <1>1
  <2>2. ASSUME NEW k \in Nat, P(k) PROVE P(k + 1)
    <3> SUFFICES ASSUME k + 1 <= Len(us) PROVE k + 1 <= Len(vs) /\ us[k + 1] = vs[k + 1] OBVIOUS
    <3>1. k <= Len(us) /\ k <= Len(vs) /\ (k > 0 => us[k] = vs[k]) BY <2>2, <1>1
    <3>2. Bytes(us, k) = Bytes(vs, k) BY <3>1 DEF Bytes
    <3>3. k + 1 \in 1..Len(us) /\ (k + 1) - 1 = k BY <1>1
    <3>4. us[k + 1].at = Bytes(us, k) + 1 /\ us[k + 1].at \in 1..Len(x) /\ us[k + 1].kind # "more"
          /\ UnitAt(x, us[k + 1].at, f) = [kind |-> us[k + 1].kind, len |-> us[k + 1].len]
      BY <3>3, RunUnit DEF Run
    <3>5. k + 1 <= Len(vs)
      <4> SUFFICES ASSUME ~(k + 1 <= Len(vs)) PROVE FALSE OBVIOUS
      <4>1. k = Len(vs) BY <3>1, <1>1
      <4>2. Bytes(vs, Len(vs)) < Len(x) /\ UnitAt(x, Bytes(vs, Len(vs)) + 1, f).kind # "more"
        <5>1. Bytes(vs, Len(vs)) + 1 = us[k + 1].at BY <4>1, <3>2, <3>4
        <5>2. Bytes(vs, Len(vs)) \in Nat
          <6>1. CASE k = 0 BY <6>1, <4>1 DEF Bytes
          <6>2. CASE k > 0
            <7>1. k \in 1..Len(vs) BY <6>2, <4>1
            <7>2. Bytes(vs, k) \in 1..Len(x) BY <7>1, <1>1, RunUnit
            <7> QED BY <7>2, <4>1
          <6> QED BY <6>1, <6>2
        <5>3. UnitAt(x, us[k + 1].at, f).kind = us[k + 1].kind BY <3>4
        <5> QED BY <5>1, <5>2, <5>3, <3>4
      <4> QED BY <4>2 DEF UnitsAre
    <3>6. k + 1 \in 1..Len(vs) BY <3>5, <1>1
    <3>7. vs[k + 1].at = Bytes(vs, k) + 1 /\ UnitAt(x, vs[k + 1].at, f) = [kind |-> vs[k + 1].kind, len |-> vs[k + 1].len]
      BY <3>6, <3>3, <1>1 DEF Run
    <3>8. vs[k + 1].at = us[k + 1].at BY <3>7, <3>4, <3>2
    <3>9. [kind |-> vs[k + 1].kind, len |-> vs[k + 1].len] = [kind |-> us[k + 1].kind, len |-> us[k + 1].len] BY <3>7, <3>8, <3>4
    <3>10. vs[k + 1].kind = us[k + 1].kind /\ vs[k + 1].len = us[k + 1].len BY <3>9
    <3>11. us[k + 1] = [kind |-> us[k + 1].kind, at |-> us[k + 1].at, len |-> us[k + 1].len] BY <3>3, RunUnit
    <3>12. vs[k + 1] = [kind |-> vs[k + 1].kind, at |-> vs[k + 1].at, len |-> vs[k + 1].len] BY <3>6, <1>1, RunUnit
    <3> QED BY <3>5, <3>8, <3>10, <3>11, <3>12
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa
<1>3. ASSUME NEW k \in 1..Len(us) PROVE us[k] = vs[k] BY <1>1, <1>2
<1> QED BY <1>1, <1>2, <1>3

\* Every byte string falls apart into units ...
LEMMA Exists == ASSUME NEW x \in Seq(Byte), NEW f \in BOOLEAN
  PROVE \E us \in Seq(Unit) : UnitsAre(us, x, f)
<1>1. Len(x) \in Nat OBVIOUS
<1> DEFINE P(m) == \E us \in Seq(Unit) : Run(us, x, f) /\ (UnitsAre(us, x, f) \/ Bytes(us, Len(us)) >= m)
<1>2. \A m \in Nat : P(m)
  <2>1. P(0)
    <3>1. <<>> \in Seq(Unit) /\ Len(<<>>) = 0 /\ Bytes(<<>>, 0) = 0 BY DEF Bytes
    <3>2. Run(<<>>, x, f) BY <3>1 DEF Run
    <3> QED BY <3>1, <3>2
  <2>2. ASSUME NEW m \in Nat, P(m) PROVE P(m + 1)
    <3>1. PICK us \in Seq(Unit) : Run(us, x, f) /\ (UnitsAre(us, x, f) \/ Bytes(us, Len(us)) >= m) BY <2>2
    <3>2. CASE UnitsAre(us, x, f) BY <3>1, <3>2
    <3>3. CASE ~UnitsAre(us, x, f)
      <4> DEFINE n == Bytes(us, Len(us))
                 u == UnitAt(x, n + 1, f)
                 v == [kind |-> u.kind, at |-> n + 1, len |-> u.len]
                 vs == Append(us, v)
      <4>0. Len(us) \in Nat OBVIOUS
      <4>1. n \in Nat
        <5>1. CASE Len(us) = 0 BY <5>1 DEF Bytes
        <5>2. CASE Len(us) > 0
          <6>1. Len(us) \in 1..Len(us) BY <5>2, <4>0
          <6>2. n \in 1..Len(x) BY <6>1, <3>1, RunUnit
          <6> QED BY <6>2
        <5> QED BY <5>1, <5>2, <4>0
      <4>2. n < Len(x) /\ u.kind # "more" BY <3>1, <3>3 DEF UnitsAre
      <4>3. n + 1 \in 1..Len(x) BY <4>1, <4>2, <1>1
      <4> HIDE DEF n, u
      <4>4. u.kind \in {"char", "err"} /\ u.len \in 1..4 /\ u = [kind |-> u.kind, len |-> u.len]
        <5>1. /\ u.kind \in {"char", "err", "more"}
              /\ u.kind = "err" => u = [kind |-> "err", len |-> 1]
              /\ u.kind = "char" => u.len \in 1..4
          BY <4>3, Shape DEF u
        <5>2. u = [kind |-> u.kind, len |-> u.len]
          <6>1. \E a, b : u = [kind |-> a, len |-> b] BY DEF u, UnitAt
          <6> QED BY <6>1
        <5> QED BY <5>1, <5>2, <4>2
      <4>5. v \in Unit BY <4>1, <4>4 DEF Unit
      <4>6. vs \in Seq(Unit) /\ Len(vs) = Len(us) + 1 /\ vs[Len(us) + 1] = v /\ \A k \in 1..Len(us) : vs[k] = us[k] BY <4>5, <4>0
      <4>7. v.kind = u.kind /\ v.at = n + 1 /\ v.len = u.len OBVIOUS
      <4> HIDE DEF v, vs
      <4>8. \A k \in 0..Len(us) : Bytes(vs, k) = Bytes(us, k) BY <4>6, <4>0 DEF Bytes
      <4>9. Run(vs, x, f)
        <5>1. ASSUME NEW k \in 1..Len(vs)
              PROVE /\ vs[k].at = Bytes(vs, k - 1) + 1 /\ vs[k].at <= Len(x) /\ vs[k].kind # "more"
                    /\ UnitAt(x, vs[k].at, f) = [kind |-> vs[k].kind, len |-> vs[k].len]
          <6>1. CASE k <= Len(us)
            <7>1. k \in 1..Len(us) /\ k - 1 \in 0..Len(us) BY <6>1, <4>0, <4>6
            <7> QED BY <7>1, <4>6, <4>8, <3>1 DEF Run
          <6>2. CASE k = Len(us) + 1
            <7>1. k - 1 = Len(us) /\ Len(us) \in 0..Len(us) BY <6>2, <4>0
            <7>2. vs[k] = v /\ Bytes(vs, k - 1) = n BY <7>1, <6>2, <4>6, <4>8 DEF n
            <7> QED BY <7>2, <4>2, <4>3, <4>4, <4>7 DEF u
          <6> QED BY <6>1, <6>2, <4>0, <4>6
        <5> QED BY <5>1 DEF Run
      <4>10. Bytes(vs, Len(vs)) >= m + 1
        <5>1. Bytes(vs, Len(vs)) = n + u.len BY <4>6, <4>7, <4>0, <4>1, <4>4 DEF Bytes
        <5>2. n >= m BY <3>1, <3>3 DEF n
        <5> QED BY <5>1, <5>2, <4>1, <4>4
      <4> QED BY <4>6, <4>9, <4>10
    <3> QED BY <3>2, <3>3
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa
<1>3. PICK us \in Seq(Unit) : Run(us, x, f) /\ (UnitsAre(us, x, f) \/ Bytes(us, Len(us)) >= Len(x)) BY <1>1, <1>2
<1>4. CASE Bytes(us, Len(us)) >= Len(x)
  <2>1. ~(Bytes(us, Len(us)) < Len(x))
    <3>1. CASE Len(us) = 0 BY <3>1, <1>4, <1>1 DEF Bytes
    <3>2. CASE Len(us) # 0
      <4>1. Len(us) \in 1..Len(us) BY <3>2
      <4>2. Bytes(us, Len(us)) \in 1..Len(x) BY <4>1, <1>3, RunUnit
      <4> QED BY <4>2, <1>4, <1>1
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <1>3 DEF UnitsAre
<1> QED BY <1>3, <1>4

\* ... in one way.
LEMMA Unique == ASSUME NEW x \in Seq(Byte), NEW f \in BOOLEAN, NEW us \in Seq(Unit), NEW vs \in Seq(Unit), UnitsAre(us, x, f), UnitsAre(vs, x, f)
  PROVE us = vs
<1>1. Run(us, x, f) /\ Run(vs, x, f) /\ Len(us) \in Nat /\ Len(vs) \in Nat BY DEF UnitsAre
<1>2. Len(us) <= Len(vs) /\ \A k \in 1..Len(us) : us[k] = vs[k] BY <1>1, Prefix
<1>3. Len(vs) <= Len(us) BY <1>1, Prefix
<1> QED BY <1>1, <1>2, <1>3, SeqEqual

---------------------------------------------------------------------------
(* The split function.                                                     *)
SplitAnswers(x, f) == AnswersFor(CHOOSE us \in Seq(Unit) : UnitsAre(us, x, f), x, f)

\* The first token of a whole input.
Whole(x) == CHOOSE us \in Seq(Unit) : UnitsAre(us, x, TRUE)
FirstToken(x) == Bytes(Whole(x), FirstCluster(Classified(Whole(x), x)))

LEMMA Chosen == ASSUME NEW x \in Seq(Byte), NEW f \in BOOLEAN, NEW us, us = CHOOSE vs \in Seq(Unit) : UnitsAre(vs, x, f)
  PROVE us \in Seq(Unit) /\ UnitsAre(us, x, f)
  BY Exists

LEMMA Least == ASSUME NEW n \in Nat, NEW S, S \subseteq 1..n, S # {}
  PROVE \E k \in S : \A j \in S : k <= j
<1> DEFINE P(m) == (\E k \in S : k <= m) => \E k \in S : \A j \in S : k <= j
<1>1. \A m \in Nat : P(m)
  <2>1. P(0)
    <3>1. \A k \in S : k \in Nat /\ k >= 1 OBVIOUS
    <3> QED BY <3>1
  <2>2. ASSUME NEW m \in Nat, P(m) PROVE P(m + 1)
    <3> SUFFICES ASSUME NEW k \in S, k <= m + 1 PROVE \E i \in S : \A j \in S : i <= j OBVIOUS
    <3>1. CASE \E i \in S : i <= m BY <3>1, <2>2
    <3>2. CASE ~\E i \in S : i <= m
      <4>1. \A j \in S : j \in Nat /\ ~(j <= m) BY <3>2
      <4>2. \A j \in S : k <= j BY <4>1
      <4> QED BY <4>2
    <3> QED BY <3>1, <3>2
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa
<1>2. \E k \in S : k <= n OBVIOUS
<1> QED BY <1>1, <1>2

\* A text that ends has a first cluster.
LEMMA LastBoundary == ASSUME NEW t \in Seq(Units), t # <<>> PROVE Len(t) \in 1..Len(t) /\ Boundary(t, Len(t))
<1>1. Len(t) \in Nat /\ Len(t) >= 1 OBVIOUS
<1>2. Decider(t, Len(t)) = "GB2" BY <1>1 DEF Decider
<1> QED BY <1>1, <1>2 DEF Boundary, Breaking

LEMMA HasFirst == ASSUME NEW t \in Seq(Units), t # <<>> PROVE \E k : First(t, k)
<1> DEFINE S == {k \in 1..Len(t) : Boundary(t, k)}
<1>1. Len(t) \in Nat /\ S \subseteq 1..Len(t) /\ Len(t) \in S BY LastBoundary
<1>2. PICK k \in S : \A j \in S : k <= j BY <1>1, Least
<1>3. \A j \in 1..(k - 1) : ~Boundary(t, j)
  <2> SUFFICES ASSUME NEW j \in 1..(k - 1), Boundary(t, j) PROVE FALSE OBVIOUS
  <2>1. k \in 1..Len(t) BY <1>2
  <2>2. j \in S /\ j < k BY <2>1, <1>1
  <2> QED BY <2>1, <2>2, <1>2
<1> QED BY <1>2, <1>3 DEF First

LEMMA Nonempty == ASSUME NEW x \in Seq(Byte), x # <<>>, NEW us \in Seq(Unit), UnitsAre(us, x, TRUE)
  PROVE us # <<>> /\ Len(us) \in 1..Len(us) /\ Bytes(us, Len(us)) = Len(x)
<1>1. Len(us) \in Nat /\ Len(x) \in Nat /\ Len(x) >= 1 OBVIOUS
<1>2. Run(us, x, TRUE) BY DEF UnitsAre
<1>3. Bytes(us, Len(us)) \in 0..Len(x)
  <2>1. CASE Len(us) = 0 BY <2>1, <1>1 DEF Bytes
  <2>2. CASE Len(us) > 0
    <3>1. Len(us) \in 1..Len(us) BY <2>2, <1>1
    <3>2. Bytes(us, Len(us)) \in 1..Len(x) BY <3>1, <1>2, RunUnit
    <3> QED BY <3>2
  <2> QED BY <2>1, <2>2, <1>1
<1>4. ~(Bytes(us, Len(us)) < Len(x))
  <2> SUFFICES ASSUME Bytes(us, Len(us)) < Len(x) PROVE FALSE OBVIOUS
  <2> DEFINE i == Bytes(us, Len(us)) + 1
             u == UnitAt(x, i, TRUE)
  <2>1. i \in 1..Len(x) /\ TRUE \in BOOLEAN BY <1>3, <1>1
  <2>2. u.kind = "more" BY DEF UnitsAre
  <2> HIDE DEF i
  <2>3. u.kind = "more" => ~TRUE BY <2>1, Shape
  <2> QED BY <2>2, <2>3
<1>5. Bytes(us, Len(us)) = Len(x) BY <1>1, <1>3, <1>4
<1>6. Len(us) # 0 BY <1>1, <1>5 DEF Bytes
<1> QED BY <1>1, <1>5, <1>6

LEMMA TokenOf == ASSUME NEW x \in Seq(Byte), x # <<>>, NEW us \in Seq(Unit), UnitsAre(us, x, TRUE), NEW k, First(Classified(us, x), k)
  PROVE FirstToken(x) = Bytes(us, k) /\ FirstToken(x) \in 1..Len(x)
<1>1. Whole(x) \in Seq(Unit) /\ UnitsAre(Whole(x), x, TRUE) BY Chosen DEF Whole
<1>2. Whole(x) = us BY <1>1, Unique
<1>3. Run(us, x, TRUE) BY DEF UnitsAre
<1>4. Classified(us, x) \in Seq(Units) /\ Len(Classified(us, x)) = Len(us) BY <1>3, TextOf
<1>5. FirstCluster(Classified(us, x)) = k BY <1>4, FirstUnique
<1>6. k \in 1..Len(us) BY <1>4 DEF First
<1>7. Bytes(us, k) \in 1..Len(x) BY <1>3, <1>6, RunUnit
<1> QED BY <1>2, <1>5, <1>7 DEF FirstToken

\* At the end of input the answer is the first token.
THEOREM AtEnd == ASSUME NEW x \in Seq(Byte), x # <<>>
  PROVE SplitAnswers(x, TRUE) = {FirstToken(x)} /\ FirstToken(x) \in 1..Len(x)
<1> DEFINE us == CHOOSE vs \in Seq(Unit) : UnitsAre(vs, x, TRUE)
           t  == Classified(us, x)
           bs == {k \in 1..(Len(t) - 1) : Boundary(t, k)}
<1>1. us \in Seq(Unit) /\ UnitsAre(us, x, TRUE) BY Chosen
<1>2. SplitAnswers(x, TRUE) = AnswersFor(us, x, TRUE) BY DEF SplitAnswers
<1> HIDE DEF us
<1>3. Run(us, x, TRUE) BY <1>1 DEF UnitsAre
<1>4. us # <<>> /\ Len(us) \in 1..Len(us) /\ Bytes(us, Len(us)) = Len(x) BY <1>1, Nonempty
<1>5. t \in Seq(Units) /\ Len(t) = Len(us) BY <1>1, <1>3, TextOf
<1>6. AnswersFor(us, x, TRUE) = IF bs # {} THEN {Bytes(us, CHOOSE k \in bs : \A j \in bs : k <= j)} ELSE {Len(x)} BY DEF AnswersFor
<1> HIDE DEF t
<1>7. t # <<>> /\ Len(t) \in Nat BY <1>4, <1>5
<1>8. CASE bs # {}
  <2> DEFINE k == CHOOSE k \in bs : \A j \in bs : k <= j
  <2>1. Len(t) - 1 \in Nat /\ bs \subseteq 1..(Len(t) - 1) BY <1>4, <1>5
  <2>2. k \in bs /\ \A j \in bs : k <= j BY <2>1, <1>8, Least
  <2> HIDE DEF k
  <2>3. First(t, k)
    <3>1. k \in 1..Len(t) /\ Boundary(t, k) /\ k \in Nat /\ k <= Len(t) - 1 BY <2>2, <1>7
    <3>2. ASSUME NEW j \in 1..(k - 1), Boundary(t, j) PROVE FALSE
      <4>1. j \in bs /\ j < k BY <3>1, <3>2, <1>7
      <4> QED BY <4>1, <2>2, <3>1
    <3> QED BY <3>1, <3>2 DEF First
  <2>4. FirstToken(x) = Bytes(us, k) /\ FirstToken(x) \in 1..Len(x) BY <1>1, <2>3, TokenOf DEF t
  <2>5. AnswersFor(us, x, TRUE) = {Bytes(us, k)} BY <1>6, <1>8 DEF k
  <2> QED BY <2>4, <2>5, <1>2
<1>9. CASE bs = {}
  <2>1. First(t, Len(t)) BY <1>5, <1>7, <1>9, LastBoundary DEF First
  <2>2. FirstToken(x) = Bytes(us, Len(t)) /\ FirstToken(x) \in 1..Len(x) BY <1>1, <2>1, TokenOf DEF t
  <2> QED BY <2>2, <1>2, <1>4, <1>5, <1>6, <1>9
<1> QED BY <1>8, <1>9

---------------------------------------------------------------------------
(* What an incomplete character becomes.                                   *)
LEMMA Filled == ASSUME NEW p \in Seq(Byte), NEW n \in 2..4, Len(p) \in 1..(n - 1), NEW b \in Byte, NEW e, e = p \o [k \in 1..(n - Len(p)) |-> b]
  PROVE \A j \in 1..n : e[j] = IF j <= Len(p) THEN p[j] ELSE b
<1> DEFINE A == [k \in 1..(n - Len(p)) |-> b]
<1>1. n - Len(p) \in Nat /\ Len(p) \in Nat /\ n \in Nat OBVIOUS
<1>2. A \in Seq(Byte) /\ Len(A) = n - Len(p) /\ \A k \in 1..(n - Len(p)) : A[k] = b BY <1>1
<1> HIDE DEF A
<1>3. ASSUME NEW j \in 1..n PROVE (p \o A)[j] = IF j <= Len(p) THEN p[j] ELSE b
  <2>1. CASE j <= Len(p) BY <2>1, <1>1, <1>2
  <2>2. CASE j > Len(p)
    <3>1. j - Len(p) \in 1..(n - Len(p)) /\ j \in 1..(Len(p) + Len(A)) BY <2>2, <1>1, <1>2
    <3>2. (p \o A)[j] = A[j - Len(p)] BY <2>2, <3>1, <1>1, <1>2
    <3> QED BY <3>1, <3>2, <2>2, <1>1, <1>2
  <2> QED BY <2>1, <2>2, <1>1
<1> QED BY <1>3 DEF A

\* Bytes between low and high ones make a code point between theirs.
LEMMA Between == ASSUME NEW z, NEW i \in Nat, NEW low, NEW high, NEW n \in 2..4, z[i] \in Byte, LeadLen(z[i]) = n,
                        low[1] = z[i], high[1] = z[i],
                        \A j \in 2..n : /\ z[i + j - 1] \in 128..191 /\ low[j] \in 128..191 /\ high[j] \in 128..191
                                        /\ low[j] <= z[i + j - 1] /\ z[i + j - 1] <= high[j]
  PROVE /\ CodePoint(low, 1, n) \in Nat /\ CodePoint(high, 1, n) \in Nat
        /\ CodePoint(z, i, n) \in CodePoint(low, 1, n)..CodePoint(high, 1, n)
<1>1. CASE n = 2
  <2>1. z[i] \in 192..223 BY <1>1, LeadRange
  <2>2. 2 \in 2..n /\ i + 2 - 1 = i + 1 BY <1>1
  <2>3. z[i+1] \in 128..191 /\ low[2] \in 128..191 /\ high[2] \in 128..191 /\ low[2] <= z[i+1] /\ z[i+1] <= high[2] BY <2>2
  <2>4. CodePoint(z, i, 2) = (z[i] - 192) * 64 + (z[i+1] - 128) BY CP
  <2>5. CodePoint(low, 1, 2) = (low[1] - 192) * 64 + (low[2] - 128) BY CP
  <2>6. CodePoint(high, 1, 2) = (high[1] - 192) * 64 + (high[2] - 128) BY CP
  <2> QED BY <1>1, <2>1, <2>3, <2>4, <2>5, <2>6
<1>2. CASE n = 3
  <2>1. z[i] \in 224..239 BY <1>2, LeadRange
  <2>2. 2 \in 2..n /\ 3 \in 2..n /\ i + 2 - 1 = i + 1 /\ i + 3 - 1 = i + 2 BY <1>2
  <2>3. z[i+1] \in 128..191 /\ low[2] \in 128..191 /\ high[2] \in 128..191 /\ low[2] <= z[i+1] /\ z[i+1] <= high[2] BY <2>2
  <2>4. z[i+2] \in 128..191 /\ low[3] \in 128..191 /\ high[3] \in 128..191 /\ low[3] <= z[i+2] /\ z[i+2] <= high[3] BY <2>2
  <2>5. CodePoint(z, i, 3) = (z[i] - 224) * 4096 + (z[i+1] - 128) * 64 + (z[i+2] - 128) BY CP
  <2>6. CodePoint(low, 1, 3) = (low[1] - 224) * 4096 + (low[2] - 128) * 64 + (low[3] - 128) BY CP
  <2>7. CodePoint(high, 1, 3) = (high[1] - 224) * 4096 + (high[2] - 128) * 64 + (high[3] - 128) BY CP
  <2> QED BY <1>2, <2>1, <2>3, <2>4, <2>5, <2>6, <2>7
<1>3. CASE n = 4
  <2>1. z[i] \in 240..247 BY <1>3, LeadRange
  <2>2. 2 \in 2..n /\ 3 \in 2..n /\ 4 \in 2..n /\ i + 2 - 1 = i + 1 /\ i + 3 - 1 = i + 2 /\ i + 4 - 1 = i + 3 BY <1>3
  <2>3. z[i+1] \in 128..191 /\ low[2] \in 128..191 /\ high[2] \in 128..191 /\ low[2] <= z[i+1] /\ z[i+1] <= high[2] BY <2>2
  <2>4. z[i+2] \in 128..191 /\ low[3] \in 128..191 /\ high[3] \in 128..191 /\ low[3] <= z[i+2] /\ z[i+2] <= high[3] BY <2>2
  <2>5. z[i+3] \in 128..191 /\ low[4] \in 128..191 /\ high[4] \in 128..191 /\ low[4] <= z[i+3] /\ z[i+3] <= high[4] BY <2>2
  <2>6. CodePoint(z, i, 4) = (z[i] - 240) * 262144 + (z[i+1] - 128) * 4096 + (z[i+2] - 128) * 64 + (z[i+3] - 128) BY CP
  <2>7. CodePoint(low, 1, 4) = (low[1] - 240) * 262144 + (low[2] - 128) * 4096 + (low[3] - 128) * 64 + (low[4] - 128) BY CP
  <2>8. CodePoint(high, 1, 4) = (high[1] - 240) * 262144 + (high[2] - 128) * 4096 + (high[3] - 128) * 64 + (high[4] - 128) BY CP
  <2> QED BY <1>3, <2>1, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1> QED BY <1>1, <1>2, <1>3

LEMMA Becomes == ASSUME NEW x \in Seq(Byte), NEW i \in 1..Len(x), UnitAt(x, i, FALSE).kind = "more", NEW y \in Seq(Byte),
                        NEW v, v = UnitAt(x \o y, i, TRUE)
  PROVE UnitClass(x \o y, [kind |-> v.kind, at |-> i, len |-> v.len]) \in Coming(SubSeq(x, i, Len(x)))
<1> DEFINE z == x \o y
           p == SubSeq(x, i, Len(x))
           n == LeadLen(x[i])
           low == p \o [k \in 1..(n - Len(p)) |-> 128]
           high == p \o [k \in 1..(n - Len(p)) |-> 191]
<1>1. z \in Seq(Byte) /\ Len(z) >= Len(x) /\ Len(z) \in Nat /\ Len(x) \in Nat /\ i \in Nat /\ i >= 1 /\ i \in 1..Len(z)
      /\ \A j \in 1..Len(x) : z[j] = x[j] /\ x[j] \in Byte
  OBVIOUS
<1>2. n \in 2..4 /\ i + n - 1 > Len(x) /\ \A k \in 1..(Len(x) - i) : Cont(x[i + k]) BY Shape
<1> HIDE DEF n
<1>3. p \in Seq(Byte) /\ Len(p) = Len(x) - i + 1 /\ Len(p) \in 1..(n - 1) /\ (\A j \in 1..Len(p) : p[j] = x[i + j - 1]) /\ p[1] = x[i] /\ p # <<>>
  BY <1>1, <1>2
<1> HIDE DEF z, p
<1>4. Coming(p) = {Err} \cup ClassesIn(CodePoint(low, 1, n), CodePoint(high, 1, n)) BY <1>3 DEF Coming, n
<1>5. 128 \in Byte /\ 191 \in Byte BY DEF Byte
<1>6. \A j \in 1..n : low[j] = IF j <= Len(p) THEN p[j] ELSE 128 BY <1>2, <1>3, <1>5, Filled
<1>7. \A j \in 1..n : high[j] = IF j <= Len(p) THEN p[j] ELSE 191 BY <1>2, <1>3, <1>5, Filled
<1> HIDE DEF low, high
<1>8. z[i] = x[i] /\ z[i] \in Byte /\ LeadLen(z[i]) = n BY <1>1 DEF n
<1>9. /\ v.kind \in {"char", "err", "more"}
      /\ v.kind = "more" => ~TRUE
      /\ v.kind = "char" => v.len = LeadLen(z[i]) /\ v.len \in 1..4 /\ i + v.len - 1 <= Len(z) /\ \A k \in 1..(v.len - 1) : Cont(z[i + k])
  BY <1>1, Shape DEF z
<1>10. CASE v.kind = "err" BY <1>10, <1>4 DEF UnitClass, p
<1>11. CASE v.kind = "char"
  <2>1. v.len = n /\ i + n - 1 <= Len(z) /\ \A k \in 1..(n - 1) : Cont(z[i + k]) BY <1>9, <1>11, <1>8
  <2>2. \A j \in 2..n : z[i + j - 1] \in 128..191
    <3> SUFFICES ASSUME NEW j \in 2..n PROVE z[i + j - 1] \in 128..191 OBVIOUS
    <3>1. i + j - 1 \in 1..Len(z) BY <2>1, <1>1, <1>2
    <3>2. j - 1 \in 1..(n - 1) /\ i + (j - 1) = i + j - 1 BY <1>1, <1>2
    <3>3. Cont(z[i + j - 1]) /\ z[i + j - 1] \in Byte BY <3>1, <3>2, <2>1, <1>1
    <3> QED BY <3>3 DEF Cont, Byte
  <2>3. \A j \in 1..Len(p) : p[j] = z[i + j - 1]
    <3> SUFFICES ASSUME NEW j \in 1..Len(p) PROVE p[j] = z[i + j - 1] OBVIOUS
    <3>1. i + j - 1 \in 1..Len(x) BY <1>1, <1>3
    <3> QED BY <3>1, <1>1, <1>3
  <2>4. ASSUME NEW j \in 2..n PROVE low[j] \in 128..191 /\ high[j] \in 128..191 /\ low[j] <= z[i + j - 1] /\ z[i + j - 1] <= high[j]
    <3>1. j \in 1..n /\ j >= 1 /\ Len(p) \in Nat /\ z[i + j - 1] \in 128..191 BY <1>2, <1>3, <2>2
    <3>2. CASE j <= Len(p)
      <4>1. low[j] = z[i + j - 1] /\ high[j] = z[i + j - 1] BY <3>1, <3>2, <1>6, <1>7, <2>3
      <4> QED BY <4>1, <3>1
    <3>3. CASE ~(j <= Len(p)) BY <3>1, <3>3, <1>6, <1>7
    <3> QED BY <3>2, <3>3
  <2>5. low[1] = z[i] /\ high[1] = z[i] BY <1>2, <1>3, <1>6, <1>7, <1>8
  <2>6. /\ CodePoint(low, 1, n) \in Nat /\ CodePoint(high, 1, n) \in Nat
        /\ CodePoint(z, i, n) \in CodePoint(low, 1, n)..CodePoint(high, 1, n)
    BY <1>1, <1>2, <1>8, <2>2, <2>4, <2>5, Between
  <2>7. ClassOf(CodePoint(z, i, n)) \in ClassesIn(CodePoint(low, 1, n), CodePoint(high, 1, n)) BY <2>6, Classification
  <2>8. UnitClass(z, [kind |-> v.kind, at |-> i, len |-> v.len]) = ClassOf(CodePoint(z, i, n)) BY <1>11, <2>1 DEF UnitClass
  <2> QED BY <2>7, <2>8, <1>4 DEF z, p
<1> QED BY <1>9, <1>10, <1>11

---------------------------------------------------------------------------
(* What is reported on incomplete input is the first token of whatever the *)
(* input turns out to be.                                                  *)
LEMMA Append1 == ASSUME NEW t \in Seq(Units), NEW w \in Seq(Units), Len(t) <= Len(w), \A k \in 1..Len(t) : w[k] = t[k]
  PROVE /\ \E r \in Seq(Units) : w = t \o r
        /\ Len(t) < Len(w) => \E r \in Seq(Units) : w = Append(t, w[Len(t) + 1]) \o r
<1>1. Len(t) \in Nat /\ Len(w) \in Nat OBVIOUS
<1>2. ASSUME NEW s \in Seq(Units), Len(s) <= Len(w), \A k \in 1..Len(s) : w[k] = s[k] PROVE \E r \in Seq(Units) : w = s \o r
  <2> DEFINE r == SubSeq(w, Len(s) + 1, Len(w))
             l == s \o r
  <2>1. Len(s) \in Nat /\ r \in Seq(Units) /\ Len(r) = Len(w) - Len(s) /\ \A j \in 1..(Len(w) - Len(s)) : r[j] = w[Len(s) + j] BY <1>1, <1>2
  <2> HIDE DEF r
  <2>2. l \in Seq(Units) /\ Len(l) = Len(w) BY <2>1, <1>1
  <2>3. ASSUME NEW j \in 1..Len(l) PROVE l[j] = w[j]
    <3>1. CASE j <= Len(s) BY <3>1, <2>1, <2>2, <1>1, <1>2
    <3>2. CASE j > Len(s)
      <4>1. j - Len(s) \in 1..(Len(w) - Len(s)) /\ Len(s) + (j - Len(s)) = j BY <3>2, <2>1, <2>2, <1>1
      <4>2. l[j] = r[j - Len(s)] BY <3>2, <4>1, <2>1, <2>2
      <4> QED BY <4>1, <4>2, <2>1
    <3> QED BY <3>1, <3>2, <2>1, <2>2
  <2> HIDE DEF l
  <2>4. l = w BY <2>2, <2>3, SeqEqual
  <2> QED BY <2>1, <2>4 DEF l
<1>3. ASSUME Len(t) < Len(w) PROVE \E r \in Seq(Units) : w = Append(t, w[Len(t) + 1]) \o r
  <2> DEFINE s == Append(t, w[Len(t) + 1])
  <2>1. w[Len(t) + 1] \in Units BY <1>1, <1>3
  <2>2. s \in Seq(Units) /\ Len(s) = Len(t) + 1 /\ \A k \in 1..Len(s) : w[k] = s[k] BY <2>1, <1>1
  <2> HIDE DEF s
  <2>3. Len(s) <= Len(w) BY <2>2, <1>1, <1>3
  <2>4. \E r \in Seq(Units) : w = s \o r BY <2>2, <2>3, <1>2
  <2> QED BY <2>4 DEF s
<1> QED BY <1>2, <1>3

THEOREM Final == ASSUME NEW x \in Seq(Byte), NEW y \in Seq(Byte), NEW a \in SplitAnswers(x, FALSE), a # 0
  PROVE x # <<>> /\ a = FirstToken(x \o y)
<1> DEFINE us == CHOOSE vs \in Seq(Unit) : UnitsAre(vs, x, FALSE)
           t  == Classified(us, x)
           bs == {k \in 1..(Len(t) - 1) : Boundary(t, k)}
           z  == x \o y
           vs == Whole(z)
           w  == Classified(vs, z)
           n  == Len(t)
<1>1. us \in Seq(Unit) /\ UnitsAre(us, x, FALSE) BY Chosen
<1>2. a \in AnswersFor(us, x, FALSE) BY DEF SplitAnswers
<1> HIDE DEF us
<1>3. x # <<>> BY <1>2 DEF AnswersFor
<1>4. z \in Seq(Byte) /\ z # <<>> /\ Len(z) >= Len(x) /\ Len(x) \in Nat /\ Len(z) \in Nat BY <1>3
<1>5. vs \in Seq(Unit) /\ UnitsAre(vs, z, TRUE) BY <1>4, Chosen DEF Whole
<1>6. Run(us, x, FALSE) /\ Run(vs, z, TRUE) BY <1>1, <1>5 DEF UnitsAre
<1>7. Run(us, z, TRUE) /\ Classified(us, z) = t BY <1>1, <1>6, RunGrows
<1> HIDE DEF z, vs
<1>8. t \in Seq(Units) /\ n = Len(us) /\ n \in Nat BY <1>1, <1>6, TextOf
<1>9. w \in Seq(Units) /\ Len(w) = Len(vs) /\ Len(w) \in Nat BY <1>4, <1>5, <1>6, TextOf
<1>10. n <= Len(w) /\ \A k \in 1..n : us[k] = vs[k] BY <1>1, <1>4, <1>5, <1>7, <1>8, <1>9, Prefix
<1>11. \A k \in 1..n : w[k] = t[k]
  <2>1. Classified(us, z) = t BY <1>7
  <2>2. ASSUME NEW k \in 1..n PROVE Classified(vs, z)[k] = Classified(us, z)[k]
    <3>1. k \in 1..Len(us) /\ k \in 1..Len(vs) BY <1>8, <1>9, <1>10
    <3> QED BY <3>1, <1>10 DEF Classified
  <2> QED BY <2>1, <2>2
<1>12. \A k \in 0..n : Bytes(vs, k) = Bytes(us, k) BY <1>8, <1>10 DEF Bytes
<1>13. SUFFICES ASSUME NEW k \in 1..n, First(w, k), a = Bytes(us, k) PROVE a = FirstToken(z)
  <2> SUFFICES \E k \in 1..n : First(w, k) /\ a = Bytes(us, k) BY <1>3 DEF z
  <2>1. a \in IF bs # {} THEN {Bytes(us, CHOOSE k \in bs : \A j \in bs : k <= j)}
              ELSE IF t = <<>> THEN {0}
              ELSE IF t[n] = Err THEN {Bytes(us, Len(us))}
              ELSE IF Over(t, Partial(x, us)) THEN {0, Bytes(us, Len(us))}
              ELSE {0}
    BY <1>2, <1>3 DEF AnswersFor
  <2> HIDE DEF t, w
  <2>2. CASE bs # {}
    <3> DEFINE k == CHOOSE k \in bs : \A j \in bs : k <= j
    <3>1. n - 1 \in Nat /\ bs \subseteq 1..(n - 1) BY <1>8, <2>2
    <3>2. k \in bs /\ \A j \in bs : k <= j BY <3>1, <2>2, Least
    <3>3. a = Bytes(us, k) BY <2>1, <2>2
    <3> HIDE DEF k
    <3>4. k \in 1..n /\ k < n /\ Boundary(t, k) /\ k \in Nat BY <3>2, <1>8
    <3>5. ASSUME NEW j \in 1..(k - 1), Boundary(t, j) PROVE FALSE
      <4>1. j \in bs /\ j < k BY <3>4, <3>5, <1>8
      <4> QED BY <4>1, <3>2, <3>4
    <3>6. First(t, k) BY <3>4, <3>5 DEF First
    <3>7. PICK r \in Seq(Units) : w = t \o r BY <1>8, <1>9, <1>10, <1>11, Append1
    <3>8. First(w, k) BY <3>4, <3>6, <3>7, <1>8, Reported
    <3> QED BY <3>3, <3>4, <3>8
  <2>3. CASE bs = {}
    <3>1. t # <<>> /\ a = Bytes(us, n) /\ (t[n] = Err \/ Over(t, Partial(x, us))) BY <2>1, <2>3, <1>8
    <3>2. n >= 1 /\ n \in 1..n /\ n \in 1..Len(w) BY <3>1, <1>8, <1>9, <1>10
    <3>3. PICK r \in Seq(Units) : w = t \o r BY <1>8, <1>9, <1>10, <1>11, Append1
    <3>4. ASSUME NEW j \in 1..(n - 1) PROVE ~Boundary(w, j)
      <4>1. ~Boundary(t, j) BY <2>3
      <4> QED BY <4>1, <3>3, <1>8, Local
    <3>5. Boundary(w, n)
      <4>1. CASE n = Len(w) BY <4>1, <1>9, <3>2, LastBoundary
      <4>2. CASE n < Len(w)
        <5> DEFINE c == w[n + 1]
                   s == Append(t, c)
                   k == n + 1
                   i == Bytes(us, n) + 1
        <5>1. c \in Units /\ k \in 1..Len(vs) /\ k \in Nat /\ k - 1 = n BY <4>2, <1>8, <1>9
        <5>2. c = UnitClass(z, vs[k]) BY <5>1 DEF w, Classified
        <5>3. Boundary(s, n)
          <6>1. CASE t[n] = Err BY <6>1, <5>1, <1>8, <3>1, Closed
          <6>2. CASE Over(t, Partial(x, us))
            <7>1. c \in Coming(Partial(x, us))
              <8>1. Partial(x, us) = SubSeq(x, i, Len(x)) BY <1>8 DEF Partial
              <8>2. i \in Nat /\ i >= 1 /\ i <= Len(x) + 1
                <9>1. Bytes(us, n) \in 1..Len(x) BY <3>2, <1>8, <1>1, <1>6, RunUnit
                <9> QED BY <9>1, <1>4
              <8>3. CASE i > Len(x)
                <9>1. SubSeq(x, i, Len(x)) = <<>> BY <8>2, <8>3, <1>4
                <9> QED BY <9>1, <8>1, <5>1 DEF Coming
              <8>4. CASE i <= Len(x)
                <9>1. i \in 1..Len(x) BY <8>2, <8>4, <1>4
                <9>2. Bytes(us, Len(us)) < Len(x) /\ i = Bytes(us, Len(us)) + 1
                  <10> DEFINE m == Bytes(us, n)
                  <10>1. m \in 1..Len(x) BY <3>2, <1>8, <1>1, <1>6, RunUnit
                  <10>2. i = m + 1 /\ Bytes(us, Len(us)) = m BY <1>8
                  <10> HIDE DEF m
                  <10> QED BY <10>1, <10>2, <8>4, <1>4
                <9>3. UnitAt(x, i, FALSE).kind = "more" BY <9>2, <1>1 DEF UnitsAre
                <9>4. vs[k].at = Bytes(vs, k - 1) + 1 /\ vs[k] = [kind |-> vs[k].kind, at |-> vs[k].at, len |-> vs[k].len]
                  BY <5>1, <1>4, <1>5, <1>6, RunUnit
                <9>5. Bytes(vs, n) = Bytes(us, n) BY <1>12, <1>8
                <9>6. vs[k].at = i BY <9>4, <9>5, <5>1
                <9>7. UnitAt(z, i, TRUE) = [kind |-> vs[k].kind, len |-> vs[k].len] BY <9>6, <5>1, <1>6 DEF Run
                <9> DEFINE v == UnitAt(x \o y, i, TRUE)
                <9>8. v.kind = vs[k].kind /\ v.len = vs[k].len BY <9>7 DEF z
                <9>9. UnitClass(x \o y, [kind |-> v.kind, at |-> i, len |-> v.len]) \in Coming(SubSeq(x, i, Len(x))) BY <9>1, <9>3, Becomes
                <9> HIDE DEF v, i, k, c
                <9>10. vs[k] = [kind |-> v.kind, at |-> i, len |-> v.len] BY <9>4, <9>6, <9>8
                <9> QED BY <9>9, <9>10, <8>1, <5>2 DEF z
              <8> QED BY <8>2, <8>3, <8>4, <1>4
            <7> QED BY <7>1, <6>2 DEF Over
          <6> QED BY <6>1, <6>2, <3>1
        <5>4. PICK q \in Seq(Units) : w = s \o q BY <4>2, <1>8, <1>9, <1>10, <1>11, Append1
        <5>5. s \in Seq(Units) /\ Len(s) = n + 1 /\ n \in 1..(Len(s) - 1) BY <5>1, <1>8, <3>2
        <5> HIDE DEF s
        <5> QED BY <5>3, <5>4, <5>5, Local
      <4> QED BY <4>1, <4>2, <1>8, <1>9, <1>10
    <3>6. First(w, n) BY <3>2, <3>4, <3>5 DEF First
    <3> QED BY <3>1, <3>2, <3>6
  <2> QED BY <2>2, <2>3
<1>14. FirstToken(z) = Bytes(vs, k) BY <1>4, <1>5, <1>13, TokenOf DEF w
<1> QED BY <1>12, <1>13, <1>14, <1>8

---------------------------------------------------------------------------
(* The contract of Delivery_proofs.                                        *)
THEOREM Contract ==
  /\ \A d \in Seq(Byte) : d # <<>> => FirstToken(d) \in 1..Len(d)
  /\ \A f \in BOOLEAN : SplitAnswers(<<>>, f) = {0}
  /\ \A d \in Seq(Byte) : d # <<>> => SplitAnswers(d, TRUE) = {FirstToken(d)}
  /\ \A d \in Seq(Byte), e \in Seq(Byte) : \A a \in SplitAnswers(d, FALSE) : a # 0 => a = FirstToken(d \o e)
<1>1. \A f \in BOOLEAN : SplitAnswers(<<>>, f) = {0} BY DEF SplitAnswers, AnswersFor
<1> QED BY <1>1, AtEnd, Final
=============================================================================
