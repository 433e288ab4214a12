----------------------------- MODULE Utf8_proofs -----------------------------
(***************************************************************************)
(* The UTF-8 transducer, for byte strings of every length (checked by the  *)
(* TLA+ proof system): it decides exactly what the definition on the whole *)
(* string says, as soon as that can be decided.                            *)
(***************************************************************************)
EXTENDS Units_proofs

(* The transducer.  Pending p after the bytes d: the last p[2] bytes begin *)
(* a sequence of p[1] bytes.                                               *)
At(d, p) == Len(d) - p[2] + 1
Pend(d, p) ==
  /\ p \in Pendings /\ p[2] <= Len(d)
  /\ p # <<0, 0>> => /\ LeadLen(d[At(d, p)]) = p[1]
                     /\ \A k \in 1..(p[2] - 1) : Cont(d[At(d, p) + k])

ErrUnit == [kind |-> "err", len |-> 1]

LEMMA PendShape == ASSUME NEW p \in Pendings
  PROVE /\ p[1] \in 0..4 /\ p[2] \in 0..3
        /\ p # <<0, 0>> => p[1] \in 2..4 /\ p[2] \in 1..3 /\ p[2] < p[1]
        /\ p = <<0, 0>> => p[1] = 0 /\ p[2] = 0
        /\ p = <<p[1], p[2]>>
        /\ p # <<0, 0>> /\ p[2] + 1 < p[1] => <<p[1], p[2] + 1>> \in Pendings /\ <<p[1], p[2] + 1>> # <<0, 0>>
  BY DEF Pendings

LEMMA ContLead == ASSUME NEW b \in Byte, Cont(b) PROVE LeadLen(b) = 0
  BY DEF Cont, LeadLen, Byte

\* What is pending is undecided, and malformed if nothing follows.
LEMMA PendingMore == ASSUME NEW d \in Seq(Byte), NEW p, Pend(d, p), p # <<0, 0>>
  PROVE /\ UnitAt(d, At(d, p), FALSE).kind = "more"
        /\ \A j \in 0..(p[2] - 1) : UnitAt(d, At(d, p) + j, TRUE) = ErrUnit
<1> DEFINE a == At(d, p)
<1>1. Len(d) \in Nat /\ p[1] \in 2..4 /\ p[2] \in 1..3 /\ p[2] < p[1] /\ p[2] <= Len(d) BY PendShape DEF Pend
<1>2. a = Len(d) - p[2] + 1 /\ a \in 1..Len(d) BY <1>1 DEF At
<1>3. LeadLen(d[a]) = p[1] /\ \A k \in 1..(p[2] - 1) : Cont(d[a + k]) BY DEF Pend
<1> HIDE DEF a
<1>4. Have(d, a) = p[2] BY <1>1, <1>2, <1>3 DEF Have
<1>5. ~Broken(d, a) BY <1>3, <1>4 DEF Broken
<1>6. ~(a + p[1] - 1 <= Len(d)) BY <1>1, <1>2
<1>7. UnitAt(d, a, FALSE).kind = "more" BY <1>1, <1>2, <1>3, <1>5, <1>6, UnitCases
<1>8. ASSUME NEW j \in 0..(p[2] - 1) PROVE UnitAt(d, a + j, TRUE) = ErrUnit
  <2>1. CASE j = 0 BY <2>1, <1>1, <1>2, <1>3, <1>5, <1>6, UnitCases DEF ErrUnit
  <2>2. CASE j # 0
    <3>1. j \in 1..(p[2] - 1) /\ a + j \in 1..Len(d) BY <2>2, <1>1, <1>2
    <3>2. LeadLen(d[a + j]) = 0 BY <3>1, <1>3, ContLead
    <3> QED BY <3>1, <3>2, UnitCases DEF ErrUnit
  <2> QED BY <2>1, <2>2
<1> QED BY <1>7, <1>8 DEF a

LEMMA FreshRight == ASSUME NEW d \in Seq(Byte), NEW b \in Byte, NEW f, f = Fresh(ByteClass(b))
  PROVE LET t == Append(d, b) IN
        /\ f = [errs |-> f.errs, char |-> f.char, next |-> f.next]
        /\ f.errs \in 0..1 /\ f.char \in 0..1 /\ f.errs + f.char + f.next[2] = 1
        /\ f.errs = 1 => UnitAt(t, Len(t), FALSE) = ErrUnit
        /\ f.char = 1 => UnitAt(t, Len(t), FALSE) = [kind |-> "char", len |-> 1]
        /\ Pend(t, f.next)
<1> DEFINE t == Append(d, b)
           n == Len(t)
<1>1. t \in Seq(Byte) /\ n = Len(d) + 1 /\ Len(d) \in Nat /\ n \in 1..Len(t) /\ t[n] = b OBVIOUS
<1> HIDE DEF t, n
<1>2. Have(t, n) <= 1 /\ Have(t, n) \in Int BY <1>1, Lens DEF Have, n
<1>3. ~Broken(t, n) BY <1>2 DEF Broken
<1>4. /\ UnitAt(t, n, FALSE) = IF LeadLen(b) = 0 THEN ErrUnit ELSE IF LeadLen(b) <= 1 THEN [kind |-> "char", len |-> LeadLen(b)] ELSE [kind |-> "more", len |-> 0]
  BY <1>1, <1>3, UnitCases, Lens DEF ErrUnit, n
<1>5. CASE LeadLen(b) = 1
  <2>1. f = [errs |-> 0, char |-> 1, next |-> <<0, 0>>] BY <1>5 DEF Fresh, ByteClass
  <2> QED BY <2>1, <1>4, <1>5, <1>1 DEF Pend, Pendings, t, n
<1>6. CASE LeadLen(b) = 0
  <2>1. f = [errs |-> 1, char |-> 0, next |-> <<0, 0>>] BY <1>6 DEF Fresh, ByteClass
  <2> QED BY <2>1, <1>4, <1>6, <1>1 DEF Pend, Pendings, t, n
<1>7. CASE LeadLen(b) \in 2..4
  <2>0. ~Cont(b) BY <1>7, ContLead
  <2>1. f = [errs |-> 0, char |-> 0, next |-> <<LeadLen(b), 1>>]
    <3>1. CASE LeadLen(b) = 2 BY <3>1, <2>0 DEF Fresh, ByteClass
    <3>2. CASE LeadLen(b) = 3 BY <3>2, <2>0 DEF Fresh, ByteClass
    <3>3. CASE LeadLen(b) = 4 BY <3>3, <2>0 DEF Fresh, ByteClass
    <3> QED BY <3>1, <3>2, <3>3, <1>7
  <2>2. f.next \in Pendings /\ f.next[1] = LeadLen(b) /\ f.next[2] = 1 BY <2>1, <1>7 DEF Pendings
  <2>3. At(t, f.next) = n BY <2>2, <1>1 DEF At, n
  <2>4. Pend(t, f.next) BY <2>2, <2>3, <1>1 DEF Pend, n
  <2> QED BY <2>1, <2>4 DEF t
<1> QED BY <1>5, <1>6, <1>7, Lens

THEOREM FeedRight == ASSUME NEW d \in Seq(Byte), NEW p, Pend(d, p), NEW b \in Byte, NEW f, f = Feed(p, ByteClass(b))
  PROVE LET t == Append(d, b)
            a == At(d, p)
        IN /\ f.errs \in 0..4 /\ f.char \in 0..4
           /\ \A j \in 0..(f.errs - 1) : UnitAt(t, a + j, FALSE) = ErrUnit
           /\ f.char > 0 => UnitAt(t, a + f.errs, FALSE) = [kind |-> "char", len |-> f.char]
           /\ Pend(t, f.next)
           /\ At(t, f.next) = a + f.errs + f.char
<1> DEFINE t == Append(d, b)
           a == At(d, p)
           g == Fresh(ByteClass(b))
<1>1. t \in Seq(Byte) /\ Len(t) = Len(d) + 1 /\ Len(d) \in Nat /\ t[Len(d) + 1] = b /\ \A j \in 1..Len(d) : t[j] = d[j] OBVIOUS
<1>2. p[1] \in 0..4 /\ p[2] \in 0..3 /\ p[2] <= Len(d) /\ a = Len(d) - p[2] + 1 BY PendShape DEF Pend, At
<1>3. /\ g = [errs |-> g.errs, char |-> g.char, next |-> g.next]
      /\ g.errs \in 0..1 /\ g.char \in 0..1 /\ g.errs + g.char + g.next[2] = 1
      /\ g.errs = 1 => UnitAt(t, Len(t), FALSE) = ErrUnit
      /\ g.char = 1 => UnitAt(t, Len(t), FALSE) = [kind |-> "char", len |-> 1]
      /\ Pend(t, g.next)
  BY FreshRight
<1>4. g.next[2] \in 0..3 /\ At(t, g.next) = Len(t) - g.next[2] + 1 BY <1>3, PendShape DEF Pend, At
<1>5. CASE p = <<0, 0>>
  <2>1. f = g /\ p[2] = 0 BY <1>5 DEF Feed
  <2>2. a = Len(t) BY <2>1, <1>1, <1>2
  <2> HIDE DEF t, a, g
  <2> QED BY <2>1, <2>2, <1>1, <1>3, <1>4 DEF t, a
<1>6. CASE p # <<0, 0>>
  <2>1. /\ p[1] \in 2..4 /\ p[2] \in 1..3 /\ p[2] < p[1] /\ a \in 1..Len(d) BY <1>6, <1>1, <1>2, PendShape DEF Pend
  <2>2. LeadLen(d[a]) = p[1] /\ \A k \in 1..(p[2] - 1) : Cont(d[a + k]) BY <1>6 DEF Pend
  <2>3. LeadLen(t[a]) = p[1] /\ \A k \in 1..(p[2] - 1) : Cont(t[a + k]) BY <2>1, <2>2, <1>1, <1>2
  <2>4. a + p[2] = Len(t) /\ t[a + p[2]] = b BY <1>1, <1>2
  <2>5. Have(t, a) = p[2] + 1 BY <2>1, <2>3, <1>1, <1>2 DEF Have
  <2>6. ByteClass(b) = "cont" <=> Cont(b) BY ContLead DEF ByteClass
  <2>7. CASE Cont(b)
    <3>1. ~Broken(t, a)
      <4> SUFFICES ASSUME NEW k \in 1..p[2] PROVE Cont(t[a + k]) BY <2>5, <2>1 DEF Broken
      <4> QED BY <2>3, <2>4, <2>7, <2>1
    <3>2. CASE p[2] + 1 = p[1]
      <4>1. f = [errs |-> 0, char |-> p[1], next |-> <<0, 0>>] BY <1>6, <2>6, <2>7, <3>2 DEF Feed
      <4>2. UnitAt(t, a, FALSE) = [kind |-> "char", len |-> p[1]]
        <5>1. a \in 1..Len(t) /\ a + p[1] - 1 <= Len(t) /\ p[1] # 0 BY <2>1, <2>4, <3>2, <1>1, <1>2
        <5> QED BY <5>1, <3>1, <2>3, <1>1, UnitCases
      <4>3. Pend(t, f.next) BY <4>1, <1>1 DEF Pend, Pendings
      <4>4. At(t, f.next) = Len(t) + 1 BY <4>1, <1>1 DEF At
      <4> HIDE DEF t, a, g
      <4> QED BY <4>1, <4>2, <4>3, <4>4, <2>1, <2>4, <3>2, <1>1, <1>2 DEF t, a
    <3>3. CASE p[2] + 1 # p[1]
      <4>1. f = [errs |-> 0, char |-> 0, next |-> <<p[1], p[2] + 1>>] BY <1>6, <2>6, <2>7, <3>3 DEF Feed
      <4>2. f.next \in Pendings /\ f.next # <<0, 0>> /\ f.next[1] = p[1] /\ f.next[2] = p[2] + 1
        BY <4>1, <1>6, <3>3, <2>1, PendShape DEF Pend
      <4>3. At(t, f.next) = a BY <4>2, <1>1, <1>2 DEF At
      <4>4. \A k \in 1..(f.next[2] - 1) : Cont(t[a + k]) BY <4>2, <2>3, <2>4, <2>7, <2>1
      <4>5. Pend(t, f.next) BY <4>2, <4>3, <4>4, <2>3, <1>1, <1>2 DEF Pend
      <4> HIDE DEF t, a, g
      <4> QED BY <4>1, <4>3, <4>5, <1>1, <1>2 DEF t, a
    <3> QED BY <3>2, <3>3
  <2>8. CASE ~Cont(b)
    <3>1. f = [g EXCEPT !.errs = g.errs + p[2]] BY <1>6, <2>6, <2>8 DEF Feed
    <3>2. f.errs = g.errs + p[2] /\ f.char = g.char /\ f.next = g.next BY <3>1, <1>3
    <3>3. Broken(t, a)
      <4>1. p[2] \in 1..(Have(t, a) - 1) BY <2>5, <2>1
      <4> QED BY <4>1, <2>4, <2>8 DEF Broken
    <3>4. ASSUME NEW j \in 0..(f.errs - 1) PROVE UnitAt(t, a + j, FALSE) = ErrUnit
      <4>1. CASE j = 0 BY <4>1, <3>3, <2>1, <1>1, UnitCases DEF ErrUnit
      <4>2. CASE j \in 1..(p[2] - 1)
        <5>1. a + j \in 1..Len(t) BY <4>2, <2>1, <2>4, <1>1
        <5>2. LeadLen(t[a + j]) = 0 BY <4>2, <2>3, <5>1, <1>1, ContLead
        <5> QED BY <5>1, <5>2, <1>1, UnitCases DEF ErrUnit
      <4>3. CASE j = p[2] BY <4>3, <3>2, <2>4, <1>3, <2>1
      <4> QED BY <4>1, <4>2, <4>3, <3>2, <1>3, <2>1
    <3>5. At(t, f.next) = a + f.errs + f.char BY <3>2, <1>3, <1>4, <1>1, <1>2
    <3> HIDE DEF t, a, g
    <3>6. f.char > 0 => a + f.errs = Len(t) /\ f.char = 1 BY <3>2, <1>3, <1>4, <1>1, <1>2
    <3> QED BY <3>2, <3>4, <3>5, <3>6, <1>3, <2>1 DEF t, a
  <2> QED BY <2>7, <2>8
<1> QED BY <1>5, <1>6

---------------------------------------------------------------------------
(* The transducer at work: whatever it has put out by now is the decoding  *)
(* of all bytes before the pending ones, and stays so.                     *)
VARIABLES d, p, done
Init == d = <<>> /\ p = <<0, 0>> /\ done = {}
Out(a, f) == {[at |-> a + j, kind |-> "err", len |-> 1] : j \in 0..(f.errs - 1)}
             \cup (IF f.char > 0 THEN {[at |-> a + f.errs, kind |-> "char", len |-> f.char]} ELSE {})
Next == \E b \in Byte : /\ d' = Append(d, b)
                        /\ p' = Feed(p, ByteClass(b)).next
                        /\ done' = done \cup Out(At(d, p), Feed(p, ByteClass(b)))
Spec == Init /\ [][Next]_<<d, p, done>>

Unit(u, s) == /\ u.at \in 1..Len(s) /\ u.len \in 1..4 /\ u.kind # "more"
              /\ UnitAt(s, u.at, FALSE) = [kind |-> u.kind, len |-> u.len]
Tiled(s, n) ==
  /\ \A u \in s : u.at \in Nat /\ u.len \in Nat /\ u.at + u.len <= n
  /\ \A q \in 1..(n - 1) : \E u \in s : u.at <= q /\ q < u.at + u.len
  /\ \A u, v \in s : u = v \/ u.at + u.len <= v.at \/ v.at + v.len <= u.at
Decoded == /\ d \in Seq(Byte) /\ Pend(d, p)
           /\ \A u \in done : Unit(u, d)
           /\ Tiled(done, At(d, p))

LEMMA OutTiles == ASSUME NEW s, NEW n \in Nat, n >= 1, Tiled(s, n), NEW f, f.errs \in 0..4, f.char \in 0..4
  PROVE Tiled(s \cup Out(n, f), n + f.errs + f.char)
<1> DEFINE o == Out(n, f)
           m == n + f.errs + f.char
           E == {[at |-> n + j, kind |-> "err", len |-> 1] : j \in 0..(f.errs - 1)}
           C == IF f.char > 0 THEN {[at |-> n + f.errs, kind |-> "char", len |-> f.char]} ELSE {}
<1>1. o = E \cup C BY DEF Out
<1>2. \A u \in E : u.at \in n..(n + f.errs - 1) /\ u.len = 1 /\ u.kind = "err" /\ u = [at |-> u.at, kind |-> "err", len |-> 1] OBVIOUS
<1>3. \A u \in C : u.at = n + f.errs /\ u.len = f.char /\ f.char > 0 /\ u = [at |-> n + f.errs, kind |-> "char", len |-> f.char] OBVIOUS
<1>4. \A q \in n..(n + f.errs - 1) : \E u \in E : u.at = q /\ u.len = 1
  <2> SUFFICES ASSUME NEW q \in n..(n + f.errs - 1) PROVE \E u \in E : u.at = q /\ u.len = 1 OBVIOUS
  <2>1. q - n \in 0..(f.errs - 1) /\ q = n + (q - n) OBVIOUS
  <2>2. [at |-> n + (q - n), kind |-> "err", len |-> 1] \in E BY <2>1
  <2> QED BY <2>1, <2>2
<1>5. f.char > 0 => [at |-> n + f.errs, kind |-> "char", len |-> f.char] \in C OBVIOUS
<1> HIDE DEF E, C
<1>6. \A u \in o : u.at \in Nat /\ u.len \in Nat /\ u.at >= n /\ u.at + u.len <= m
  BY <1>1, <1>2, <1>3
<1>7. ASSUME NEW q \in 1..(m - 1) PROVE \E u \in s \cup o : u.at <= q /\ q < u.at + u.len
  <2>1. CASE q <= n - 1
    <3>1. q \in 1..(n - 1) BY <2>1
    <3>2. \E u \in s : u.at <= q /\ q < u.at + u.len BY <3>1 DEF Tiled
    <3> QED BY <3>2
  <2>2. CASE q \in n..(n + f.errs - 1) BY <2>2, <1>4, <1>1
  <2>3. CASE q >= n + f.errs
    <3>1. f.char > 0 /\ q < n + f.errs + f.char BY <2>3
    <3> QED BY <3>1, <2>3, <1>5, <1>1
  <2> QED BY <2>1, <2>2, <2>3
<1>8. ASSUME NEW u \in o, NEW v \in o PROVE u = v \/ u.at + u.len <= v.at \/ v.at + v.len <= u.at
  <2>1. CASE u \in E /\ v \in E BY <2>1, <1>2
  <2>2. CASE u \in E /\ v \in C BY <2>2, <1>2, <1>3
  <2>3. CASE u \in C /\ v \in E BY <2>3, <1>2, <1>3
  <2>4. CASE u \in C /\ v \in C BY <2>4, <1>3
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <1>1
<1> HIDE DEF o
<1>9. \A u \in s : u.at \in Nat /\ u.len \in Nat /\ u.at + u.len <= n BY DEF Tiled
<1>10. ASSUME NEW u \in s \cup o, NEW v \in s \cup o PROVE u = v \/ u.at + u.len <= v.at \/ v.at + v.len <= u.at
  <2>1. CASE u \in s /\ v \in s BY <2>1 DEF Tiled
  <2>2. CASE u \in s /\ v \in o BY <2>2, <1>6, <1>9
  <2>3. CASE u \in o /\ v \in s BY <2>3, <1>6, <1>9
  <2>4. CASE u \in o /\ v \in o BY <2>4, <1>8
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>11. \A u \in s \cup o : u.at \in Nat /\ u.len \in Nat /\ u.at + u.len <= m BY <1>6, <1>9
<1> QED BY <1>7, <1>10, <1>11 DEF Tiled, o

THEOREM Transducer == Spec => []Decoded
<1>1. Init => Decoded BY DEF Init, Decoded, Pend, Pendings, At, Tiled
<1>2. Decoded /\ [Next]_<<d, p, done>> => Decoded'
  <2> SUFFICES ASSUME Decoded, [Next]_<<d, p, done>> PROVE Decoded' OBVIOUS
  <2>1. CASE UNCHANGED <<d, p, done>> BY <2>1 DEF Decoded, Pend, At, Unit, Tiled
  <2>2. CASE Next
    <3> PICK b \in Byte : /\ d' = Append(d, b)
                          /\ p' = Feed(p, ByteClass(b)).next
                          /\ done' = done \cup Out(At(d, p), Feed(p, ByteClass(b)))
      BY <2>2 DEF Next
    <3> DEFINE f == Feed(p, ByteClass(b))
               a == At(d, p)
    <3>1. d \in Seq(Byte) /\ Pend(d, p) BY DEF Decoded
    <3>2. /\ f.errs \in 0..4 /\ f.char \in 0..4
          /\ \A j \in 0..(f.errs - 1) : UnitAt(d', a + j, FALSE) = ErrUnit
          /\ f.char > 0 => UnitAt(d', a + f.errs, FALSE) = [kind |-> "char", len |-> f.char]
          /\ Pend(d', p')
          /\ At(d', p') = a + f.errs + f.char
      BY <3>1, FeedRight
    <3>3. d' \in Seq(Byte) /\ Len(d') = Len(d) + 1 /\ d' = d \o <<b>> /\ <<b>> \in Seq(Byte) /\ Len(d) \in Nat BY <3>1
    <3>4. a \in Nat /\ a >= 1 /\ a <= Len(d) + 1 BY <3>1, <3>3, PendShape DEF Pend, At
    <3>5. At(d', p') <= Len(d') + 1 BY <3>2, <3>3, PendShape DEF Pend, At
    <3> HIDE DEF f, a
    <3>6. Tiled(done', At(d', p'))
      <4>1. Tiled(done, a) BY DEF Decoded, a
      <4> QED BY <4>1, <3>2, <3>4, OutTiles DEF f, a
    <3>7. ASSUME NEW u \in done PROVE Unit(u, d')
      <4>1. Unit(u, d) BY DEF Decoded
      <4>2. u.at \in 1..Len(d) /\ UnitAt(d, u.at, FALSE).kind # "more" BY <4>1 DEF Unit
      <4>3. UnitAt(d', u.at, FALSE) = UnitAt(d, u.at, FALSE) BY <4>2, <3>1, <3>3, UnitFinal
      <4> QED BY <4>1, <4>3, <3>3 DEF Unit
    <3>8. ASSUME NEW u \in Out(a, f) PROVE Unit(u, d')
      <4>1. CASE u \in {[at |-> a + j, kind |-> "err", len |-> 1] : j \in 0..(f.errs - 1)}
        <5>1. PICK j \in 0..(f.errs - 1) : u = [at |-> a + j, kind |-> "err", len |-> 1] BY <4>1
        <5>2. a + j \in 1..Len(d') BY <3>2, <3>3, <3>4, <3>5
        <5> QED BY <5>1, <5>2, <3>2 DEF Unit, ErrUnit
      <4>2. CASE f.char > 0 /\ u = [at |-> a + f.errs, kind |-> "char", len |-> f.char]
        <5>1. a + f.errs \in 1..Len(d') BY <4>2, <3>2, <3>3, <3>4, <3>5
        <5> QED BY <4>2, <5>1, <3>2 DEF Unit
      <4> QED BY <4>1, <4>2 DEF Out
    <3> QED BY <3>2, <3>3, <3>6, <3>7, <3>8 DEF Decoded, f, a
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF Spec
=============================================================================
