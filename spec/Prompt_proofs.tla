---------------------------- MODULE Prompt_proofs ----------------------------
(***************************************************************************)
(* The specification's split function waits only where it has to (C07),    *)
(* for byte strings of every length (checked by the TLA+ proof system):    *)
(* where more data is its only answer, what follows decides what the first *)
(* token is.                                                               *)
(***************************************************************************)
EXTENDS Split_proofs

\* s is a character of class c.
Encodes(s, c) == /\ Len(s) \in 1..4 /\ LeadLen(s[1]) = Len(s)
                 /\ \A j \in 2..Len(s) : Cont(s[j])
                 /\ ClassOf(CodePoint(s, 1, Len(s))) = c

ASSUME Onto ==
  /\ \A c \in Classes : \E s \in Seq(Byte) : Encodes(s, c)
  /\ \A l \in Nat, h \in Nat : \A c \in ClassesIn(l, h) : \E p \in l..h : ClassOf(p) = c

---------------------------------------------------------------------------
(* An incomplete character can become one of each class it is said to.     *)
LEMMA Digits == ASSUME NEW B \in {64, 4096}
  PROVE \A r \in 0..(64 * B - 1) : \E a \in 0..63, b \in 0..(B - 1) : r = a * B + b
<1> DEFINE P(r) == r <= 64 * B - 1 => \E a \in 0..63, b \in 0..(B - 1) : r = a * B + b
<1>0. B \in Nat /\ B >= 64 OBVIOUS
<1>1. P(0)
  <2>1. 0 \in 0..63 /\ 0 \in 0..(B - 1) /\ 0 = 0 * B + 0 BY <1>0
  <2> QED BY <2>1
<1>2. ASSUME NEW r \in Nat, P(r) PROVE P(r + 1)
  <2> SUFFICES ASSUME r + 1 <= 64 * B - 1 PROVE \E a \in 0..63, b \in 0..(B - 1) : r + 1 = a * B + b OBVIOUS
  <2>1. PICK a \in 0..63, b \in 0..(B - 1) : r = a * B + b BY <1>0, <1>2
  <2>2. CASE B = 64
    <3>1. CASE b < 63
      <4>1. b + 1 \in 0..(B - 1) /\ r + 1 = a * B + (b + 1) BY <2>1, <2>2, <3>1
      <4> QED BY <4>1
    <3>2. CASE ~(b < 63)
      <4>1. a + 1 \in 0..63 /\ 0 \in 0..(B - 1) /\ r + 1 = (a + 1) * B + 0 BY <2>1, <2>2, <3>2
      <4> QED BY <4>1
    <3> QED BY <3>1, <3>2
  <2>3. CASE B = 4096
    <3>1. CASE b < 4095
      <4>1. b + 1 \in 0..(B - 1) /\ r + 1 = a * B + (b + 1) BY <2>1, <2>3, <3>1
      <4> QED BY <4>1
    <3>2. CASE ~(b < 4095)
      <4>1. a + 1 \in 0..63 /\ 0 \in 0..(B - 1) /\ r + 1 = (a + 1) * B + 0 BY <2>1, <2>3, <3>2
      <4> QED BY <4>1
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>2, <2>3
<1> HIDE DEF P
<1>3. \A r \in Nat : P(r) BY <1>1, <1>2, NatInduction, Isa
<1>4. ASSUME NEW r \in 0..(64 * B - 1) PROVE \E a \in 0..63, b \in 0..(B - 1) : r = a * B + b
  <2>1. r \in Nat /\ r <= 64 * B - 1 BY <1>0
  <2> QED BY <2>1, <1>3 DEF P
<1> QED BY <1>4

LEMMA Joined == ASSUME NEW p \in Seq(Byte), NEW q \in Seq(Byte)
  PROVE /\ p \o q \in Seq(Byte) /\ Len(p \o q) = Len(p) + Len(q) /\ Len(p) \in Nat /\ Len(q) \in Nat
        /\ \A j \in 1..Len(p) : (p \o q)[j] = p[j]
        /\ \A j \in 1..Len(q) : (p \o q)[Len(p) + j] = q[j]
  OBVIOUS

\* Code points that differ in their last bytes only.
LEMMA Differ == ASSUME NEW n \in 2..4, NEW d, NEW e, \A j \in 1..n : d[j] \in Int /\ e[j] \in Int,
                       NEW x, x = CodePoint(d, 1, n), NEW y, y = CodePoint(e, 1, n)
  PROVE /\ (\A j \in 1..(n - 1) : e[j] = d[j]) => y = x + (e[n] - d[n])
        /\ n > 2 /\ (\A j \in 1..(n - 2) : e[j] = d[j]) => y = x + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n])
        /\ n > 3 /\ (\A j \in 1..(n - 3) : e[j] = d[j]) => y = x + (e[n - 2] - d[n - 2]) * 4096 + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n])
<1>1. CASE n = 2
  <2>1. x = (d[1] - 192) * 64 + (d[2] - 128) BY <1>1, CP
  <2>2. y = (e[1] - 192) * 64 + (e[2] - 128) BY <1>1, CP
  <2>3. d[1] \in Int /\ d[2] \in Int /\ e[1] \in Int /\ e[2] \in Int BY <1>1
  <2>4. (\A j \in 1..(n - 1) : e[j] = d[j]) => y = x + (e[n] - d[n])
    <3> SUFFICES ASSUME \A j \in 1..(n - 1) : e[j] = d[j] PROVE y = x + (e[n] - d[n]) OBVIOUS
    <3>1. e[1] = d[1] BY <1>1
    <3> QED BY <3>1, <2>1, <2>2, <2>3, <1>1
  <2> QED BY <2>4, <1>1
<1>2. CASE n = 3
  <2>1. x = (d[1] - 224) * 4096 + (d[2] - 128) * 64 + (d[3] - 128) BY <1>2, CP
  <2>2. y = (e[1] - 224) * 4096 + (e[2] - 128) * 64 + (e[3] - 128) BY <1>2, CP
  <2>3. d[1] \in Int /\ d[2] \in Int /\ d[3] \in Int /\ e[1] \in Int /\ e[2] \in Int /\ e[3] \in Int BY <1>2
  <2>4. (\A j \in 1..(n - 1) : e[j] = d[j]) => y = x + (e[n] - d[n])
    <3> SUFFICES ASSUME \A j \in 1..(n - 1) : e[j] = d[j] PROVE y = x + (e[n] - d[n]) OBVIOUS
    <3>1. e[1] = d[1] /\ e[2] = d[2] BY <1>2
    <3> QED BY <3>1, <2>1, <2>2, <2>3, <1>2
  <2>5. (\A j \in 1..(n - 2) : e[j] = d[j]) => y = x + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n])
    <3> SUFFICES ASSUME \A j \in 1..(n - 2) : e[j] = d[j] PROVE y = x + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n]) OBVIOUS
    <3>1. e[1] = d[1] BY <1>2
    <3>2. n - 1 = 2 BY <1>2
    <3> QED BY <3>1, <3>2, <2>1, <2>2, <2>3, <1>2
  <2> QED BY <2>4, <2>5, <1>2
<1>3. CASE n = 4
  <2>1. x = (d[1] - 240) * 262144 + (d[2] - 128) * 4096 + (d[3] - 128) * 64 + (d[4] - 128) BY <1>3, CP
  <2>2. y = (e[1] - 240) * 262144 + (e[2] - 128) * 4096 + (e[3] - 128) * 64 + (e[4] - 128) BY <1>3, CP
  <2>3. d[1] \in Int /\ d[2] \in Int /\ d[3] \in Int /\ d[4] \in Int /\ e[1] \in Int /\ e[2] \in Int /\ e[3] \in Int /\ e[4] \in Int BY <1>3
  <2>4. (\A j \in 1..(n - 1) : e[j] = d[j]) => y = x + (e[n] - d[n])
    <3> SUFFICES ASSUME \A j \in 1..(n - 1) : e[j] = d[j] PROVE y = x + (e[n] - d[n]) OBVIOUS
    <3>1. e[1] = d[1] /\ e[2] = d[2] /\ e[3] = d[3] BY <1>3
    <3> QED BY <3>1, <2>1, <2>2, <2>3, <1>3
  <2>5. (\A j \in 1..(n - 2) : e[j] = d[j]) => y = x + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n])
    <3> SUFFICES ASSUME \A j \in 1..(n - 2) : e[j] = d[j] PROVE y = x + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n]) OBVIOUS
    <3>1. e[1] = d[1] /\ e[2] = d[2] BY <1>3
    <3>2. n - 1 = 3 BY <1>3
    <3> QED BY <3>1, <3>2, <2>1, <2>2, <2>3, <1>3
  <2>6. (\A j \in 1..(n - 3) : e[j] = d[j]) => y = x + (e[n - 2] - d[n - 2]) * 4096 + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n])
    <3> SUFFICES ASSUME \A j \in 1..(n - 3) : e[j] = d[j]
                 PROVE y = x + (e[n - 2] - d[n - 2]) * 4096 + (e[n - 1] - d[n - 1]) * 64 + (e[n] - d[n])
      OBVIOUS
    <3>1. e[1] = d[1] BY <1>3
    <3>2. n - 1 = 3 /\ n - 2 = 2 BY <1>3
    <3> QED BY <3>1, <3>2, <2>1, <2>2, <2>3, <1>3
  <2> QED BY <2>4, <2>5, <2>6, <1>3
<1> QED BY <1>1, <1>2, <1>3

\* All continuations of the bytes that are there.
Rests(k) == {q \in Seq(Byte) : Len(q) = k /\ \A j \in 1..k : Cont(q[j])}

LEMMA Filling == ASSUME NEW p \in Seq(Byte), NEW n \in 2..4, Len(p) \in 1..(n - 1), NEW q \in Rests(n - Len(p)), NEW e, e = p \o q
  PROVE /\ Len(e) = n /\ e \in Seq(Byte)
        /\ \A j \in 1..n : e[j] = (IF j <= Len(p) THEN p[j] ELSE q[j - Len(p)]) /\ e[j] \in Int /\ (j > Len(p) => e[j] \in 128..191 /\ Cont(e[j]))
<1>1. q \in Seq(Byte) /\ Len(q) = n - Len(p) /\ \A j \in 1..Len(q) : Cont(q[j]) BY DEF Rests
<1>2. /\ e \in Seq(Byte) /\ Len(e) = Len(p) + Len(q) /\ Len(p) \in Nat /\ Len(q) \in Nat
      /\ \A j \in 1..Len(p) : e[j] = p[j]
      /\ \A j \in 1..Len(q) : e[Len(p) + j] = q[j]
  BY <1>1, Joined
<1>3. ASSUME NEW j \in 1..n
      PROVE e[j] = (IF j <= Len(p) THEN p[j] ELSE q[j - Len(p)]) /\ e[j] \in Int /\ (j > Len(p) => e[j] \in 128..191 /\ Cont(e[j]))
  <2>0. e[j] \in Byte BY <1>1, <1>2
  <2>1. CASE j <= Len(p) BY <2>0, <2>1, <1>2 DEF Byte
  <2>2. CASE ~(j <= Len(p))
    <3> DEFINE k == j - Len(p)
    <3>1. k \in 1..Len(q) /\ Len(p) + k = j BY <2>2, <1>1, <1>2
    <3>2. e[j] = q[k] /\ Cont(q[k]) BY <3>1, <1>1, <1>2
    <3> QED BY <2>0, <2>2, <3>2 DEF Cont, Byte
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3

LEMMA Bounds == ASSUME NEW p \in Seq(Byte), NEW n \in 2..4, Len(p) \in 1..(n - 1), LeadLen(p[1]) = n, \A j \in 2..Len(p) : Cont(p[j]),
                          NEW low, low = p \o [k \in 1..(n - Len(p)) |-> 128],
                          NEW high, high = p \o [k \in 1..(n - Len(p)) |-> 191],
                          NEW l, l = CodePoint(low, 1, n), NEW h, h = CodePoint(high, 1, n)
  PROVE /\ l \in Nat /\ h \in Nat /\ l <= h
        /\ n - Len(p) = 1 => h = l + 63
        /\ n - Len(p) = 2 => h = l + 4095
        /\ n - Len(p) = 3 => h = l + 262143
<1> DEFINE m == n - Len(p)
<1>1. m \in 1..3 /\ Len(p) \in Nat /\ m \in Nat /\ n \in Nat /\ Len(p) + m = n OBVIOUS
<1> HIDE DEF m
<1>2. [k \in 1..m |-> 128] \in Rests(n - Len(p)) /\ [k \in 1..m |-> 191] \in Rests(n - Len(p)) BY <1>1 DEF Rests, Cont, Byte, m
<1>3. Len(low) = n /\ \A j \in 1..n : low[j] \in Int /\ (j <= Len(p) => low[j] = p[j]) /\ (j > Len(p) => low[j] = 128)
  <2>1. Len(low) = n /\ \A j \in 1..n : low[j] \in Int BY <1>2, Filling DEF m
  <2>2. \A j \in 1..n : low[j] = IF j <= Len(p) THEN p[j] ELSE 128
    <3>1. 128 \in Byte BY DEF Byte
    <3> QED BY <3>1, Filled
  <2> QED BY <2>1, <2>2, <1>1
<1>4. Len(high) = n /\ \A j \in 1..n : high[j] \in Int /\ (j <= Len(p) => high[j] = p[j]) /\ (j > Len(p) => high[j] = 191)
  <2>1. Len(high) = n /\ \A j \in 1..n : high[j] \in Int BY <1>2, Filling DEF m
  <2>2. \A j \in 1..n : high[j] = IF j <= Len(p) THEN p[j] ELSE 191
    <3>1. 191 \in Byte BY DEF Byte
    <3> QED BY <3>1, Filled
  <2> QED BY <2>1, <2>2, <1>1
<1>5. l \in Nat
  <2>1. low \in Seq(Byte) BY <1>2, Filling DEF m
  <2>2. 1 \in 1..Len(low) /\ LeadLen(low[1]) = n /\ 1 + n - 1 <= Len(low) BY <1>1, <1>3
  <2>3. \A k \in 1..(n - 1) : Cont(low[1 + k])
    <3> SUFFICES ASSUME NEW k \in 1..(n - 1) PROVE Cont(low[1 + k]) OBVIOUS
    <3> DEFINE j == 1 + k
    <3>1. j \in 1..n /\ j \in 2..n BY <1>1
    <3>2. CASE j <= Len(p)
      <4>1. j \in 2..Len(p) BY <3>1, <3>2, <1>1
      <4> QED BY <3>1, <3>2, <4>1, <1>3
    <3>3. CASE ~(j <= Len(p))
      <4>1. low[j] = 128 BY <3>1, <3>3, <1>1, <1>3
      <4> QED BY <4>1 DEF Cont
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>1, <2>2, <2>3, Points
<1>6. (m = 1 => h = l + 63) /\ (m = 2 => h = l + 4095) /\ (m = 3 => h = l + 262143)
  <2>1. \A j \in 1..n : low[j] \in Int /\ high[j] \in Int BY <1>3, <1>4
  <2>2. /\ (\A j \in 1..(n - 1) : high[j] = low[j]) => h = l + (high[n] - low[n])
        /\ n > 2 /\ (\A j \in 1..(n - 2) : high[j] = low[j]) => h = l + (high[n - 1] - low[n - 1]) * 64 + (high[n] - low[n])
        /\ n > 3 /\ (\A j \in 1..(n - 3) : high[j] = low[j]) => h = l + (high[n - 2] - low[n - 2]) * 4096 + (high[n - 1] - low[n - 1]) * 64 + (high[n] - low[n])
    BY <2>1, Differ
  <2>3. CASE m = 1
    <3>1. (\A j \in 1..(n - 1) : high[j] = low[j]) /\ high[n] = 191 /\ low[n] = 128
      <4>1. n \in 1..n /\ n > Len(p) BY <2>3, <1>1
      <4>2. \A j \in 1..(n - 1) : j \in 1..n /\ j <= Len(p) BY <2>3, <1>1
      <4> QED BY <4>1, <4>2, <1>3, <1>4
    <3> QED BY <3>1, <2>2, <2>3, <1>5
  <2>4. CASE m = 2
    <3>1. (\A j \in 1..(n - 2) : high[j] = low[j]) /\ high[n] = 191 /\ low[n] = 128 /\ high[n - 1] = 191 /\ low[n - 1] = 128 /\ n > 2
      <4>1. n \in 1..n /\ n > Len(p) /\ n - 1 \in 1..n /\ n - 1 > Len(p) /\ n > 2 BY <2>4, <1>1
      <4>2. \A j \in 1..(n - 2) : j \in 1..n /\ j <= Len(p) BY <2>4, <1>1
      <4> QED BY <4>1, <4>2, <1>3, <1>4
    <3> QED BY <3>1, <2>2, <2>4, <1>5
  <2>5. CASE m = 3
    <3>1. /\ (\A j \in 1..(n - 3) : high[j] = low[j]) /\ high[n] = 191 /\ low[n] = 128 /\ high[n - 1] = 191 /\ low[n - 1] = 128
          /\ high[n - 2] = 191 /\ low[n - 2] = 128 /\ n > 3
      <4>1. n \in 1..n /\ n > Len(p) /\ n - 1 \in 1..n /\ n - 1 > Len(p) /\ n - 2 \in 1..n /\ n - 2 > Len(p) /\ n > 3 BY <2>5, <1>1
      <4>2. \A j \in 1..(n - 3) : j \in 1..n /\ j <= Len(p) BY <2>5, <1>1
      <4> QED BY <4>1, <4>2, <1>3, <1>4
    <3> QED BY <3>1, <2>2, <2>5, <1>5
  <2> QED BY <2>3, <2>4, <2>5, <1>1
<1>7. h \in Nat /\ l <= h BY <1>1, <1>5, <1>6
<1> QED BY <1>5, <1>6, <1>7 DEF m

LEMMA Completed == ASSUME NEW p \in Seq(Byte), NEW n \in 2..4, Len(p) \in 1..(n - 1), LeadLen(p[1]) = n, \A j \in 2..Len(p) : Cont(p[j]),
                          NEW low, low = p \o [k \in 1..(n - Len(p)) |-> 128],
                          NEW high, high = p \o [k \in 1..(n - Len(p)) |-> 191],
                          NEW l, l = CodePoint(low, 1, n), NEW h, h = CodePoint(high, 1, n),
                          NEW c \in ClassesIn(l, h)
  PROVE \E q \in Seq(Byte) : Encodes(p \o q, c)
<1> DEFINE m == n - Len(p)
<1>1. m \in 1..3 /\ Len(p) \in Nat /\ m \in Nat /\ n \in Nat /\ Len(p) + m = n OBVIOUS
<1> HIDE DEF m
<1>2. [k \in 1..m |-> 128] \in Rests(n - Len(p)) /\ [k \in 1..m |-> 191] \in Rests(n - Len(p)) BY <1>1 DEF Rests, Cont, Byte, m
<1>3. Len(low) = n /\ \A j \in 1..n : low[j] \in Int /\ (j <= Len(p) => low[j] = p[j]) /\ (j > Len(p) => low[j] = 128)
  <2>1. Len(low) = n /\ \A j \in 1..n : low[j] \in Int BY <1>2, Filling DEF m
  <2>2. \A j \in 1..n : low[j] = IF j <= Len(p) THEN p[j] ELSE 128
    <3>1. 128 \in Byte BY DEF Byte
    <3> QED BY <3>1, Filled
  <2> QED BY <2>1, <2>2, <1>1
<1>5. l \in Nat /\ h \in Nat /\ l <= h BY Bounds
<1>6. (m = 1 => h = l + 63) /\ (m = 2 => h = l + 4095) /\ (m = 3 => h = l + 262143)
  <2>1. /\ n - Len(p) = 1 => h = l + 63
        /\ n - Len(p) = 2 => h = l + 4095
        /\ n - Len(p) = 3 => h = l + 262143
    BY Bounds
  <2> QED BY <2>1 DEF m
<1>7. h \in Nat /\ l <= h BY <1>5
<1>8. PICK cp \in l..h : ClassOf(cp) = c BY <1>5, <1>7, Onto
<1>9. \E q \in Rests(m) : CodePoint(p \o q, 1, n) = cp
  <2>1. ASSUME NEW q \in Rests(m), NEW e, e = p \o q, NEW y, y = CodePoint(e, 1, n)
        PROVE /\ m = 1 => y = l + (q[1] - 128)
              /\ m = 2 => y = l + (q[1] - 128) * 64 + (q[2] - 128)
              /\ m = 3 => y = l + (q[1] - 128) * 4096 + (q[2] - 128) * 64 + (q[3] - 128)
    <3>1. \A j \in 1..n : e[j] \in Int /\ e[j] = (IF j <= Len(p) THEN p[j] ELSE q[j - Len(p)]) BY <2>1, Filling DEF m
    <3>2. /\ (\A j \in 1..(n - 1) : e[j] = low[j]) => y = l + (e[n] - low[n])
          /\ n > 2 /\ (\A j \in 1..(n - 2) : e[j] = low[j]) => y = l + (e[n - 1] - low[n - 1]) * 64 + (e[n] - low[n])
          /\ n > 3 /\ (\A j \in 1..(n - 3) : e[j] = low[j]) => y = l + (e[n - 2] - low[n - 2]) * 4096 + (e[n - 1] - low[n - 1]) * 64 + (e[n] - low[n])
      <4>1. \A j \in 1..n : low[j] \in Int /\ e[j] \in Int BY <3>1, <1>3
      <4> QED BY <4>1, <2>1, Differ
    <3>3. CASE m = 1
      <4>1. (\A j \in 1..(n - 1) : e[j] = low[j]) /\ e[n] = q[1] /\ low[n] = 128
        <5>1. n \in 1..n /\ n - Len(p) = 1 /\ ~(n <= Len(p)) /\ n > Len(p) BY <3>3, <1>1
        <5>2. \A j \in 1..(n - 1) : j \in 1..n /\ j <= Len(p) BY <3>3, <1>1
        <5>3. \A j \in 1..n : e[j] = (IF j <= Len(p) THEN p[j] ELSE q[j - Len(p)]) BY <3>1
        <5>4. \A j \in 1..n : (j <= Len(p) => low[j] = p[j]) /\ (j > Len(p) => low[j] = 128) BY <1>3
        <5> HIDE DEF m
        <5> QED BY <5>1, <5>2, <5>3, <5>4
      <4> QED BY <4>1, <3>2, <3>3
    <3>4. CASE m = 2
      <4>1. (\A j \in 1..(n - 2) : e[j] = low[j]) /\ e[n - 1] = q[1] /\ e[n] = q[2] /\ low[n] = 128 /\ low[n - 1] = 128 /\ n > 2
        <5>1. n \in 1..n /\ n - Len(p) = 2 /\ ~(n <= Len(p)) /\ n > Len(p) /\ n - 1 > Len(p) /\ n - 1 \in 1..n /\ (n - 1) - Len(p) = 1 /\ ~(n - 1 <= Len(p)) /\ n > 2 BY <3>4, <1>1
        <5>2. \A j \in 1..(n - 2) : j \in 1..n /\ j <= Len(p) BY <3>4, <1>1
        <5>3. \A j \in 1..n : e[j] = (IF j <= Len(p) THEN p[j] ELSE q[j - Len(p)]) BY <3>1
        <5>4. \A j \in 1..n : (j <= Len(p) => low[j] = p[j]) /\ (j > Len(p) => low[j] = 128) BY <1>3
        <5> HIDE DEF m
        <5> QED BY <5>1, <5>2, <5>3, <5>4
      <4> QED BY <4>1, <3>2, <3>4
    <3>5. CASE m = 3
      <4>1. /\ (\A j \in 1..(n - 3) : e[j] = low[j]) /\ e[n - 2] = q[1] /\ e[n - 1] = q[2] /\ e[n] = q[3]
            /\ low[n] = 128 /\ low[n - 1] = 128 /\ low[n - 2] = 128 /\ n > 3
        <5>1. /\ n \in 1..n /\ n - Len(p) = 3 /\ ~(n <= Len(p)) /\ n - 1 \in 1..n /\ (n - 1) - Len(p) = 2 /\ ~(n - 1 <= Len(p))
              /\ n - 2 \in 1..n /\ (n - 2) - Len(p) = 1 /\ ~(n - 2 <= Len(p)) /\ n > 3 /\ n > Len(p) /\ n - 1 > Len(p) /\ n - 2 > Len(p)
          BY <3>5, <1>1
        <5>2. \A j \in 1..(n - 3) : j \in 1..n /\ j <= Len(p) BY <3>5, <1>1
        <5>3. \A j \in 1..n : e[j] = (IF j <= Len(p) THEN p[j] ELSE q[j - Len(p)]) BY <3>1
        <5>4. \A j \in 1..n : (j <= Len(p) => low[j] = p[j]) /\ (j > Len(p) => low[j] = 128) BY <1>3
        <5> HIDE DEF m
        <5> QED BY <5>1, <5>2, <5>3, <5>4
      <4> QED BY <4>1, <3>2, <3>5
    <3> QED BY <3>3, <3>4, <3>5, <1>1
  <2> DEFINE r == cp - l
  <2>2. cp \in Nat /\ l \in Nat /\ r \in Nat /\ cp = l + r /\ r <= h - l BY <1>5, <1>7, <1>8
  <2> HIDE DEF r
  <2>3. CASE m = 1
    <3>1. r \in 0..63 BY <2>2, <2>3, <1>5, <1>6
    <3> DEFINE q == <<128 + r>>
    <3>2. q \in Seq(Byte) /\ Len(q) = 1 /\ q[1] = 128 + r /\ Cont(q[1]) BY <3>1 DEF Cont, Byte
    <3> HIDE DEF q
    <3>3. q \in Rests(m) BY <2>3, <3>2 DEF Rests
    <3>4. CodePoint(p \o q, 1, n) = l + (q[1] - 128) BY <2>1, <2>3, <3>3
    <3>5. CodePoint(p \o q, 1, n) = cp BY <3>1, <3>2, <3>4, <2>2
    <3> QED BY <3>3, <3>5
  <2>4. CASE m = 2
    <3>1. r \in 0..(64 * 64 - 1) BY <2>2, <2>4, <1>5, <1>6
    <3>2. PICK a \in 0..63, b \in 0..(64 - 1) : r = a * 64 + b BY <3>1, Digits
    <3> DEFINE q == <<128 + a, 128 + b>>
    <3>3. q \in Seq(Byte) /\ Len(q) = 2 /\ q[1] = 128 + a /\ q[2] = 128 + b /\ Cont(q[1]) /\ Cont(q[2]) BY <3>2 DEF Cont, Byte
    <3> HIDE DEF q
    <3>4. q \in Rests(m) BY <2>4, <3>3 DEF Rests
    <3>5. CodePoint(p \o q, 1, n) = l + (q[1] - 128) * 64 + (q[2] - 128) BY <2>1, <2>4, <3>4
    <3>6. CodePoint(p \o q, 1, n) = cp BY <3>2, <3>3, <3>5, <2>2
    <3> QED BY <3>4, <3>6
  <2>5. CASE m = 3
    <3>1. r \in 0..(64 * 4096 - 1) BY <2>2, <2>5, <1>5, <1>6
    <3>2. PICK a \in 0..63, s \in 0..(4096 - 1) : r = a * 4096 + s BY <3>1, Digits
    <3>3. s \in 0..(64 * 64 - 1) BY <3>2
    <3>4. PICK b \in 0..63, d \in 0..(64 - 1) : s = b * 64 + d BY <3>3, Digits
    <3> DEFINE q == <<128 + a, 128 + b, 128 + d>>
    <3>5. q \in Seq(Byte) /\ Len(q) = 3 /\ q[1] = 128 + a /\ q[2] = 128 + b /\ q[3] = 128 + d /\ Cont(q[1]) /\ Cont(q[2]) /\ Cont(q[3])
      <4>1. \A z \in 0..63 : 128 + z \in Byte /\ Cont(128 + z) BY DEF Cont, Byte
      <4>2. 128 + a \in Byte /\ Cont(128 + a) /\ 128 + b \in Byte /\ Cont(128 + b) /\ 128 + d \in Byte /\ Cont(128 + d) BY <4>1, <3>2, <3>4
      <4> HIDE DEF Cont, Byte
      <4> QED BY <4>2
    <3> HIDE DEF q
    <3>6. q \in Rests(m) BY <2>5, <3>5 DEF Rests
    <3>7. CodePoint(p \o q, 1, n) = l + (q[1] - 128) * 4096 + (q[2] - 128) * 64 + (q[3] - 128) BY <2>1, <2>5, <3>6
    <3>8. CodePoint(p \o q, 1, n) = cp BY <3>2, <3>4, <3>5, <3>7, <2>2
    <3> QED BY <3>6, <3>8
  <2> QED BY <2>3, <2>4, <2>5, <1>1
<1>10. PICK q \in Rests(m) : CodePoint(p \o q, 1, n) = cp BY <1>9
<1> DEFINE s == p \o q
<1>11. /\ Len(s) = n /\ q \in Seq(Byte)
       /\ \A j \in 1..n : s[j] = (IF j <= Len(p) THEN p[j] ELSE q[j - Len(p)]) /\ (j > Len(p) => Cont(s[j]))
  <2>1. q \in Rests(n - Len(p)) BY DEF m
  <2>2. q \in Seq(Byte) BY DEF Rests
  <2> QED BY <2>1, <2>2, Filling
<1> HIDE DEF s
<1>12. ASSUME NEW j \in 2..Len(s) PROVE Cont(s[j])
  <2>1. j \in 1..n /\ j \in 2..n BY <1>1, <1>11
  <2>2. CASE j <= Len(p)
    <3>1. j \in 2..Len(p) BY <2>1, <2>2, <1>1
    <3> QED BY <2>1, <2>2, <3>1, <1>11
  <2>3. CASE ~(j <= Len(p)) BY <2>1, <2>3, <1>1, <1>11
  <2> QED BY <2>2, <2>3
<1>13. s[1] = p[1] BY <1>1, <1>11
<1>14. Encodes(s, c)
  <2>1. Len(s) \in 1..4 /\ LeadLen(s[1]) = Len(s) BY <1>11, <1>13
  <2>2. CodePoint(s, 1, Len(s)) = cp BY <1>10, <1>11 DEF s
  <2> QED BY <2>1, <2>2, <1>8, <1>12 DEF Encodes
<1> QED BY <1>11, <1>14 DEF s

---------------------------------------------------------------------------
(* What stands at position i of a whole input.                             *)
At(z, i) == LET v == UnitAt(z, i, TRUE) IN UnitClass(z, [kind |-> v.kind, at |-> i, len |-> v.len])

LEMMA Placed == ASSUME NEW x \in Seq(Byte), NEW y \in Seq(Byte), NEW i \in 1..(Len(x) + 1),
                       NEW c, Encodes(SubSeq(x, i, Len(x)) \o y, c)
  PROVE i \in 1..Len(x \o y) /\ At(x \o y, i) = c
<1> DEFINE z == x \o y
           p == SubSeq(x, i, Len(x))
           s == p \o y
           n == Len(s)
<1>1. z \in Seq(Byte) /\ Len(z) = Len(x) + Len(y) /\ Len(x) \in Nat /\ Len(y) \in Nat /\ i \in Nat /\ i >= 1 /\ i <= Len(x) + 1 BY Joined
<1>2. p \in Seq(Byte) /\ Len(p) = Len(x) - i + 1 /\ \A j \in 1..Len(p) : p[j] = x[i + j - 1] BY <1>1
<1>3. s \in Seq(Byte) /\ n = Len(z) - i + 1 /\ n \in Nat BY <1>1, <1>2, Joined
<1>4. ASSUME NEW j \in 1..n PROVE s[j] = z[i + j - 1]
  <2>1. CASE j <= Len(p)
    <3>1. s[j] = p[j] BY <2>1, <1>2, Joined
    <3>2. z[i + j - 1] = x[i + j - 1]
      <4>1. i + j - 1 \in 1..Len(x) BY <2>1, <1>1, <1>2
      <4> QED BY <4>1, Joined
    <3> QED BY <3>1, <3>2, <2>1, <1>2
  <2>2. CASE ~(j <= Len(p))
    <3> DEFINE k == j - Len(p)
    <3>1. k \in 1..Len(y) /\ Len(p) + k = j /\ Len(x) + k = i + j - 1 BY <2>2, <1>1, <1>2, <1>3
    <3>2. s[Len(p) + k] = y[k] /\ z[Len(x) + k] = y[k] BY <3>1, <1>2, Joined
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2
<1> HIDE DEF z, p, s, n
<1>5. /\ n \in 1..4 /\ LeadLen(s[1]) = n /\ (\A j \in 2..n : Cont(s[j])) /\ ClassOf(CodePoint(s, 1, n)) = c BY DEF Encodes, s, p, n
<1>6. i \in 1..Len(z) /\ i + n - 1 = Len(z) BY <1>1, <1>3, <1>5
<1>7. s[1] = z[i]
  <2>1. 1 \in 1..n /\ i + 1 - 1 = i BY <1>1, <1>5
  <2> QED BY <2>1, <1>4
<1>8. \A k \in 1..(n - 1) : Cont(z[i + k])
  <2> SUFFICES ASSUME NEW k \in 1..(n - 1) PROVE Cont(z[i + k]) OBVIOUS
  <2>1. k + 1 \in 1..n /\ k + 1 \in 2..n /\ i + (k + 1) - 1 = i + k BY <1>1, <1>5
  <2> QED BY <2>1, <1>4, <1>5
<1>9. UnitAt(z, i, TRUE) = [kind |-> "char", len |-> n]
  <2>1. LeadLen(z[i]) = n /\ n # 0 BY <1>5, <1>7
  <2>2. ~Broken(z, i)
    <3>1. Have(z, i) = n BY <2>1, <1>1, <1>5, <1>6 DEF Have
    <3> QED BY <3>1, <1>8 DEF Broken
  <2>3. i + n - 1 <= Len(z) /\ TRUE \in BOOLEAN BY <1>6, <1>1
  <2> QED BY <2>1, <2>2, <2>3, <1>1, <1>6, UnitCases
<1>10. CodePoint(z, i, n) = CodePoint(s, 1, n)
  <2>1. \A j \in 0..(n - 1) : z[i + j] = s[1 + j]
    <3> SUFFICES ASSUME NEW j \in 0..(n - 1) PROVE z[i + j] = s[1 + j] OBVIOUS
    <3>1. 1 + j \in 1..n /\ i + (1 + j) - 1 = i + j BY <1>1, <1>5
    <3> QED BY <3>1, <1>4
  <2>2. i + 0 = i /\ 1 + 0 = 1 BY <1>1
  <2>3. CASE n = 1
    <3>1. CodePoint(z, i, 1) = z[i] /\ CodePoint(s, 1, 1) = s[1] BY CP
    <3> QED BY <2>3, <3>1, <1>7
  <2>4. CASE n = 2
    <3>1. 1 \in 0..(n - 1) BY <2>4
    <3>2. z[i + 1] = s[1 + 1] BY <3>1, <2>1
    <3> QED BY <2>4, <3>2, <1>7, CP
  <2>5. CASE n = 3
    <3>1. 1 \in 0..(n - 1) /\ 2 \in 0..(n - 1) BY <2>5
    <3>2. z[i + 1] = s[1 + 1] /\ z[i + 2] = s[1 + 2] BY <3>1, <2>1
    <3> QED BY <2>5, <3>2, <1>7, CP
  <2>6. CASE n = 4
    <3>1. 1 \in 0..(n - 1) /\ 2 \in 0..(n - 1) /\ 3 \in 0..(n - 1) BY <2>6
    <3>2. z[i + 1] = s[1 + 1] /\ z[i + 2] = s[1 + 2] /\ z[i + 3] = s[1 + 3] BY <3>1, <2>1
    <3> QED BY <2>6, <3>2, <1>7, CP
  <2> QED BY <2>3, <2>4, <2>5, <2>6, <1>5
<1>11. At(z, i) = c BY <1>5, <1>9, <1>10 DEF At, UnitClass
<1> QED BY <1>6, <1>11 DEF z

\* At the end of input an incomplete character is malformed.
LEMMA Cutoff == ASSUME NEW x \in Seq(Byte), NEW i \in 1..Len(x), UnitAt(x, i, FALSE).kind = "more"
  PROVE UnitAt(x, i, TRUE) = [kind |-> "err", len |-> 1] /\ At(x, i) = Err
<1> DEFINE n == LeadLen(x[i])
<1>1. /\ UnitAt(x, i, FALSE) = IF n = 0 \/ Broken(x, i) THEN [kind |-> "err", len |-> 1]
                               ELSE IF i + n - 1 <= Len(x) THEN [kind |-> "char", len |-> n] ELSE [kind |-> "more", len |-> 0]
      /\ UnitAt(x, i, TRUE) = IF n = 0 \/ Broken(x, i) THEN [kind |-> "err", len |-> 1]
                              ELSE IF i + n - 1 <= Len(x) THEN [kind |-> "char", len |-> n] ELSE [kind |-> "err", len |-> 1]
  BY UnitCases
<1> HIDE DEF n
<1>2. UnitAt(x, i, TRUE) = [kind |-> "err", len |-> 1] BY <1>1
<1> QED BY <1>2 DEF At, UnitClass

LEMMA Realized == ASSUME NEW x \in Seq(Byte), NEW i \in 1..(Len(x) + 1), i <= Len(x) => UnitAt(x, i, FALSE).kind = "more",
                         NEW c \in Coming(SubSeq(x, i, Len(x)))
  PROVE \E y \in Seq(Byte) : i \in 1..Len(x \o y) /\ At(x \o y, i) = c
<1> DEFINE p == SubSeq(x, i, Len(x))
<1>1. Len(x) \in Nat /\ i \in Nat /\ i >= 1 /\ <<>> \in Seq(Byte) OBVIOUS
<1>2. CASE i = Len(x) + 1
  <2>1. p = <<>> BY <1>1, <1>2
  <2>2. c \in Units BY <2>1 DEF Coming
  <2>3. CASE c = Err
    <3> DEFINE y == <<255>>
               z == x \o y
    <3>1. y \in Seq(Byte) /\ Len(y) = 1 /\ y[1] = 255 BY DEF Byte
    <3> HIDE DEF y
    <3>2. z \in Seq(Byte) /\ Len(z) = i /\ z[i] = 255 /\ i \in 1..Len(z)
      <4>1. 1 \in 1..Len(y) BY <3>1
      <4> QED BY <4>1, <3>1, <1>1, <1>2, Joined
    <3> HIDE DEF z
    <3>3. LeadLen(255) = 0 BY DEF LeadLen
    <3>4. UnitAt(z, i, TRUE) = [kind |-> "err", len |-> 1] BY <3>2, <3>3, UnitCases
    <3>5. At(z, i) = Err BY <3>4 DEF At, UnitClass
    <3> QED BY <3>1, <3>2, <3>5, <2>3 DEF z
  <2>4. CASE c \in Classes
    <3>1. PICK s \in Seq(Byte) : Encodes(s, c) BY <2>4, Onto
    <3>2. p \o s = s BY <2>1
    <3>3. Encodes(p \o s, c) BY <3>1, <3>2
    <3> QED BY <3>3, Placed
  <2> QED BY <2>2, <2>3, <2>4 DEF Units
<1>3. CASE i # Len(x) + 1
  <2>1. i \in 1..Len(x) /\ UnitAt(x, i, FALSE).kind = "more" BY <1>1, <1>3
  <2> DEFINE n == LeadLen(x[i])
             low == p \o [k \in 1..(n - Len(p)) |-> 128]
             high == p \o [k \in 1..(n - Len(p)) |-> 191]
  <2>2. n \in 2..4 /\ i + n - 1 > Len(x) /\ \A k \in 1..(Len(x) - i) : Cont(x[i + k]) BY <2>1, Shape
  <2> HIDE DEF n
  <2>3. p \in Seq(Byte) /\ Len(p) = Len(x) - i + 1 /\ Len(p) \in 1..(n - 1) /\ (\A j \in 1..Len(p) : p[j] = x[i + j - 1]) /\ p[1] = x[i] /\ p # <<>>
    BY <1>1, <2>1, <2>2
  <2> HIDE DEF p
  <2>4. Coming(p) = {Err} \cup ClassesIn(CodePoint(low, 1, n), CodePoint(high, 1, n)) BY <2>3 DEF Coming, n
  <2>5. CASE c = Err
    <3>1. At(x, i) = Err BY <2>1, Cutoff
    <3>2. x \o <<>> = x OBVIOUS
    <3> QED BY <3>1, <3>2, <2>1, <2>5, <1>1
  <2>6. CASE c \in ClassesIn(CodePoint(low, 1, n), CodePoint(high, 1, n))
    <3>1. LeadLen(p[1]) = n BY <2>3 DEF n
    <3>2. \A j \in 2..Len(p) : Cont(p[j])
      <4> SUFFICES ASSUME NEW j \in 2..Len(p) PROVE Cont(p[j]) OBVIOUS
      <4>1. j \in 1..Len(p) /\ j - 1 \in 1..(Len(x) - i) /\ i + (j - 1) = i + j - 1 BY <1>1, <2>1, <2>3
      <4> QED BY <4>1, <2>2, <2>3
    <3> HIDE DEF low, high
    <3>3. \E q \in Seq(Byte) : Encodes(p \o q, c) BY <3>1, <3>2, <2>2, <2>3, <2>6, Completed DEF low, high
    <3> QED BY <3>3, Placed DEF p
  <2>7. c \in Coming(p) BY DEF p
  <2> QED BY <2>4, <2>5, <2>6, <2>7
<1> QED BY <1>2, <1>3

---------------------------------------------------------------------------
(* The text of a whole input behind a part of it.                          *)
LEMMA Later == ASSUME NEW x \in Seq(Byte), NEW f \in BOOLEAN, NEW us \in Seq(Unit), Run(us, x, f), NEW j \in 0..Len(us), NEW k \in 0..Len(us), j < k
  PROVE Bytes(us, j) + 1 <= Bytes(us, k) /\ Bytes(us, j) \in Nat /\ Bytes(us, k) \in Nat
<1>1. Len(us) \in Nat /\ Len(x) \in Nat OBVIOUS
<1>2. \A m \in 0..Len(us) : Bytes(us, m) \in Nat
  <2> SUFFICES ASSUME NEW m \in 0..Len(us) PROVE Bytes(us, m) \in Nat OBVIOUS
  <2>1. CASE m = 0 BY <2>1 DEF Bytes
  <2>2. CASE m # 0
    <3>1. m \in 1..Len(us) BY <2>2
    <3>2. Bytes(us, m) \in 1..Len(x) BY <3>1, RunUnit
    <3> QED BY <3>2
  <2> QED BY <2>1, <2>2
<1>3. \A m \in 0..(Len(us) - 1) : Bytes(us, m) + 1 <= Bytes(us, m + 1)
  <2> SUFFICES ASSUME NEW m \in 0..(Len(us) - 1) PROVE Bytes(us, m) + 1 <= Bytes(us, m + 1) OBVIOUS
  <2> DEFINE q == m + 1
  <2>1. q \in 1..Len(us) /\ q - 1 = m BY <1>1
  <2> HIDE DEF q
  <2>2. Bytes(us, q) >= us[q].at /\ us[q].at = Bytes(us, q - 1) + 1 /\ Bytes(us, q) \in 1..Len(x) BY <2>1, RunUnit
  <2> QED BY <2>1, <2>2 DEF q
<1> DEFINE P(m) == j < m /\ m <= Len(us) => Bytes(us, j) + 1 <= Bytes(us, m)
<1>4. \A m \in Nat : P(m)
  <2>1. P(0) BY <1>1
  <2>2. ASSUME NEW m \in Nat, P(m) PROVE P(m + 1)
    <3> SUFFICES ASSUME j < m + 1, m + 1 <= Len(us) PROVE Bytes(us, j) + 1 <= Bytes(us, m + 1) OBVIOUS
    <3>1. m \in 0..(Len(us) - 1) /\ m + 1 \in 0..Len(us) /\ m \in 0..Len(us) BY <1>1
    <3>2. Bytes(us, m) + 1 <= Bytes(us, m + 1) /\ Bytes(us, m) \in Nat /\ Bytes(us, m + 1) \in Nat /\ Bytes(us, j) \in Nat BY <3>1, <1>2, <1>3
    <3>3. CASE j < m BY <3>1, <3>2, <3>3, <2>2, <1>1
    <3>4. CASE ~(j < m)
      <4>1. j = m BY <3>4
      <4> QED BY <4>1, <3>2
    <3> QED BY <3>3, <3>4
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa
<1>5. k \in Nat /\ k <= Len(us) BY <1>1
<1> QED BY <1>2, <1>4, <1>5

LEMMA NextIs == ASSUME NEW x \in Seq(Byte), NEW us \in Seq(Unit), UnitsAre(us, x, FALSE), NEW y \in Seq(Byte),
                       NEW i, i = Bytes(us, Len(us)) + 1, i \in 1..Len(x \o y)
  PROVE LET z == x \o y
            vs == Whole(z)
            t == Classified(us, x)
            w == Classified(vs, z)
        IN /\ z # <<>> /\ vs \in Seq(Unit) /\ UnitsAre(vs, z, TRUE)
           /\ t \in Seq(Units) /\ w \in Seq(Units) /\ Len(t) = Len(us) /\ Len(w) = Len(vs)
           /\ Len(us) < Len(vs) /\ \A k \in 0..Len(us) : Bytes(vs, k) = Bytes(us, k)
           /\ At(z, i) \in Units
           /\ \E r \in Seq(Units) : w = Append(t, At(z, i)) \o r
<1> DEFINE z == x \o y
           vs == Whole(z)
           t == Classified(us, x)
           w == Classified(vs, z)
           n == Len(us)
<1>1. z \in Seq(Byte) /\ z # <<>> /\ Len(z) \in Nat /\ n \in Nat BY Joined
<1>2. vs \in Seq(Unit) /\ UnitsAre(vs, z, TRUE) BY <1>1, Chosen DEF Whole
<1>3. Run(us, x, FALSE) /\ Run(vs, z, TRUE) BY <1>2 DEF UnitsAre
<1>4. Run(us, z, TRUE) /\ Classified(us, z) = t BY <1>3, RunGrows
<1> HIDE DEF z, vs
<1>5. t \in Seq(Units) /\ Len(t) = n BY <1>3, TextOf
<1>6. w \in Seq(Units) /\ Len(w) = Len(vs) /\ Len(w) \in Nat BY <1>1, <1>2, <1>3, TextOf
<1>7. n <= Len(vs) /\ \A k \in 1..n : us[k] = vs[k] BY <1>1, <1>2, <1>4, Prefix
<1>8. \A k \in 0..n : Bytes(vs, k) = Bytes(us, k) BY <1>1, <1>7 DEF Bytes
<1>9. n # Len(vs)
  <2> SUFFICES ASSUME n = Len(vs) PROVE FALSE OBVIOUS
  <2>1. Bytes(vs, Len(vs)) = Len(z) BY <1>1, <1>2, Nonempty
  <2>2. Bytes(vs, n) = Bytes(us, n) BY <1>1, <1>8
  <2>3. i = Len(z) + 1 BY <2>1, <2>2
  <2>4. i <= Len(z) BY <1>1 DEF z
  <2> QED BY <2>3, <2>4, <1>1
<1>10. n < Len(vs) BY <1>1, <1>6, <1>7, <1>9
<1>11. ASSUME NEW k \in 1..n PROVE w[k] = t[k]
  <2>1. k \in 1..Len(us) /\ k \in 1..Len(vs) BY <1>1, <1>6, <1>10
  <2>2. Classified(vs, z)[k] = Classified(us, z)[k] BY <2>1, <1>7 DEF Classified
  <2> QED BY <2>2, <1>4
<1>12. w[n + 1] = At(z, i)
  <2> DEFINE k == n + 1
  <2>1. k \in 1..Len(vs) /\ k - 1 = n BY <1>1, <1>6, <1>10
  <2> HIDE DEF k
  <2>2. vs[k].at = Bytes(vs, k - 1) + 1 /\ vs[k] = [kind |-> vs[k].kind, at |-> vs[k].at, len |-> vs[k].len] BY <2>1, <1>1, <1>2, <1>3, RunUnit
  <2>3. Bytes(vs, n) = Bytes(us, n) BY <1>1, <1>8
  <2>4. vs[k].at = i BY <2>1, <2>2, <2>3
  <2>5. UnitAt(z, i, TRUE) = [kind |-> vs[k].kind, len |-> vs[k].len] BY <2>1, <2>4, <1>3 DEF Run
  <2>6. At(z, i) = UnitClass(z, vs[k]) BY <2>2, <2>4, <2>5 DEF At
  <2>7. w[k] = UnitClass(z, vs[k]) BY <2>1 DEF Classified
  <2> QED BY <2>6, <2>7 DEF k
<1>13. At(z, i) \in Units
  <2>1. n + 1 \in 1..Len(w) BY <1>1, <1>6, <1>10
  <2>2. w[n + 1] \in Units BY <2>1, <1>6
  <2> QED BY <2>2, <1>12
<1> HIDE DEF t, w
<1>14. \E r \in Seq(Units) : w = Append(t, w[Len(t) + 1]) \o r
  <2>1. Len(t) <= Len(w) /\ Len(t) < Len(w) /\ \A k \in 1..Len(t) : w[k] = t[k] BY <1>1, <1>5, <1>6, <1>10, <1>11
  <2> QED BY <2>1, <1>5, <1>6, Append1
<1>15. \E r \in Seq(Units) : w = Append(t, At(z, i)) \o r BY <1>5, <1>12, <1>14
<1> QED BY <1>1, <1>2, <1>5, <1>6, <1>8, <1>10, <1>13, <1>15 DEF z, vs, t, w, n

\* A malformed byte ends a cluster.
LEMMA ErrEnds == ASSUME NEW s \in Seq(Units), s # <<>>
  PROVE Boundary(Append(s, Err), Len(s))
<1> DEFINE u == Append(s, Err)
           n == Len(s)
<1>0. Err \in Units BY DEF Units
<1>1. n \in Nat /\ n >= 1 /\ Len(u) = n + 1 /\ u[n] = s[n] /\ u[n + 1] = Err /\ n # 0 /\ n # Len(u) /\ s[n] \in Units BY <1>0, Ends
<1>2. GCB(Err) # "LF" BY <1>0, Kinds DEF Err
<1> HIDE DEF u, n
<1>3. Decider(u, n) \in {"GB4", "GB5", "GBErr"} BY <1>1, <1>2 DEF Decider, GB3, GB4, GB5, GBErr
<1> QED BY <1>3 DEF Boundary, Breaking, u, n

THEOREM Prompt == ASSUME NEW x \in Seq(Byte), x # <<>>, SplitAnswers(x, FALSE) = {0}
  PROVE \E y \in Seq(Byte) : FirstToken(x \o y) # FirstToken(x)
<1> DEFINE us == CHOOSE vs \in Seq(Unit) : UnitsAre(vs, x, FALSE)
           t  == Classified(us, x)
           bs == {k \in 1..(Len(t) - 1) : Boundary(t, k)}
           n  == Len(t)
           i  == Bytes(us, n) + 1
           p  == SubSeq(x, i, Len(x))
<1>1. us \in Seq(Unit) /\ UnitsAre(us, x, FALSE) BY Chosen
<1>2. AnswersFor(us, x, FALSE) = {0} BY DEF SplitAnswers
<1> HIDE DEF us
<1>3. Run(us, x, FALSE) BY <1>1 DEF UnitsAre
<1>4. t \in Seq(Units) /\ n = Len(us) /\ n \in Nat /\ Len(x) \in Nat BY <1>1, <1>3, TextOf
<1>5. \A k \in 1..Len(us) : Bytes(us, k) \in 1..Len(x) BY <1>1, <1>3, RunUnit
<1>6. i \in 1..(Len(x) + 1) /\ i - 1 = Bytes(us, n) /\ Bytes(us, n) \in Nat
  <2>1. CASE n = 0
    <3>1. Bytes(us, n) = 0 BY <2>1 DEF Bytes
    <3> HIDE DEF n
    <3> QED BY <3>1, <1>4
  <2>2. CASE n # 0
    <3> DEFINE b == Bytes(us, n)
    <3>1. n \in 1..Len(us) BY <2>2, <1>4
    <3>2. b \in 1..Len(x) BY <3>1, <1>5
    <3> HIDE DEF b
    <3>3. b + 1 \in 1..(Len(x) + 1) /\ b + 1 - 1 = b /\ b \in Nat BY <3>2, <1>4
    <3> QED BY <3>3 DEF b
  <2> QED BY <2>1, <2>2
<1>7. i <= Len(x) => UnitAt(x, i, FALSE).kind = "more"
  <2> SUFFICES ASSUME i <= Len(x) PROVE UnitAt(x, i, FALSE).kind = "more" OBVIOUS
  <2> DEFINE b == Bytes(us, Len(us))
  <2>1. b + 1 = i /\ b \in Nat BY <1>4, <1>6
  <2>2. b < Len(x) => UnitAt(x, b + 1, FALSE).kind = "more" BY <1>1 DEF UnitsAre
  <2> HIDE DEF b, i
  <2>3. b < Len(x) BY <2>1, <1>4, <1>6
  <2> QED BY <2>1, <2>2, <2>3
<1>8. x \o <<>> = x /\ <<>> \in Seq(Byte) OBVIOUS
<1>9. 0 # Bytes(us, Len(us)) => bs = {} /\ t # <<>> /\ t[n] # Err /\ ~Over(t, Partial(x, us))
  <2> DEFINE b == Bytes(us, Len(us))
  <2>1. CASE bs # {}
    <3> DEFINE k == CHOOSE k \in bs : \A j \in bs : k <= j
    <3>1. n - 1 \in Nat /\ bs \subseteq 1..(n - 1) BY <1>4, <2>1
    <3>2. k \in bs BY <3>1, <2>1, Least
    <3>3. AnswersFor(us, x, FALSE) = {Bytes(us, k)} BY <2>1 DEF AnswersFor
    <3> HIDE DEF k
    <3>4. k \in 1..Len(us) BY <3>2, <1>4
    <3>5. Bytes(us, k) \in 1..Len(x) BY <3>4, <1>5
    <3> QED BY <3>3, <3>5, <1>2
  <2>2. CASE bs = {}
    <3>1. AnswersFor(us, x, FALSE) = IF t = <<>> THEN {0}
              ELSE IF t[n] = Err THEN {b}
              ELSE IF Over(t, Partial(x, us)) THEN {0, b}
              ELSE {0}
      BY <2>2 DEF AnswersFor
    <3>2. t = <<>> => b = 0 BY <1>4 DEF Bytes
    <3> HIDE DEF b, t
    <3>3. b # 0 => t # <<>> /\ t[n] # Err /\ ~Over(t, Partial(x, us)) BY <3>1, <3>2, <1>2
    <3> QED BY <3>3, <2>2 DEF b
  <2> QED BY <2>1, <2>2
<1>10. CASE n = 0
  <2>1. i = 1 /\ us = <<>> /\ t = <<>>
    <3>1. Bytes(us, n) = 0 BY <1>10 DEF Bytes
    <3>2. i = 1 BY <3>1
    <3> HIDE DEF t, i
    <3>3. us \in Seq(Unit) /\ Len(us) = 0 BY <1>1, <1>4, <1>10
    <3>4. us = <<>> BY <3>3
    <3>5. t \in Seq(Units) /\ Len(t) = 0 BY <1>4, <1>10
    <3>6. t = <<>> BY <3>5
    <3> QED BY <3>2, <3>4, <3>6
  <2>2. 1 \in 1..Len(x) /\ 1 \in 1..(Len(x) + 1) /\ UnitAt(x, 1, FALSE).kind = "more" BY <2>1, <1>4, <1>7
  <2>3. At(x, 1) = Err /\ UnitAt(x, 1, TRUE) = [kind |-> "err", len |-> 1] BY <2>2, Cutoff
  \* At the end of input: the first token is the malformed byte.
  <2> DEFINE ws == Whole(x)
             w  == Classified(ws, x)
  <2>4. /\ ws \in Seq(Unit) /\ UnitsAre(ws, x, TRUE) /\ w \in Seq(Units) /\ Len(w) = Len(ws) /\ 0 < Len(ws)
        /\ \E r \in Seq(Units) : w = Append(<<>>, At(x, 1)) \o r
    <3>1. 1 = Bytes(us, Len(us)) + 1 /\ 1 \in 1..Len(x \o <<>>) BY <2>1, <2>2, <1>4, <1>8, <1>10 DEF Bytes
    <3> QED BY <3>1, <1>1, <1>4, <1>8, <1>10, <2>1, NextIs
  <2> HIDE DEF ws
  <2>5. Run(ws, x, TRUE) BY <2>4 DEF UnitsAre
  <2>6. 1 \in 1..Len(ws) /\ 1 \in 1..Len(w) BY <2>4
  <2>7. w[1] = Err
    <3>1. PICK r \in Seq(Units) : w = Append(<<>>, At(x, 1)) \o r BY <2>4
    <3> HIDE DEF w
    <3>2. Err \in Units BY DEF Units
    <3> QED BY <3>1, <3>2, <2>3
  <2>8. First(w, 1)
    <3> HIDE DEF w
    <3>1. CASE Len(w) = 1 BY <3>1, <2>4, <2>6, LastBoundary DEF First
    <3>2. CASE Len(w) # 1
      <4>1. 1 # Len(w) /\ 1 # 0 /\ GCB(w[1]) # "CR" BY <3>2, <2>7, Kinds DEF Err, GCB
      <4>2. Decider(w, 1) \in {"GB4", "GB5", "GBErr"} BY <4>1, <2>7 DEF Decider, GB3, GB4, GB5, GBErr
      <4>3. Boundary(w, 1) BY <4>2 DEF Boundary, Breaking
      <4> QED BY <4>3, <2>6 DEF First
    <3> QED BY <3>1, <3>2
  <2>9. FirstToken(x) = 1
    <3>1. FirstToken(x) = Bytes(ws, 1) BY <2>4, <2>8, TokenOf
    <3>2. ws[1].at = Bytes(ws, 1 - 1) + 1 BY <2>5, <2>4, <2>6, RunUnit
    <3>3. ws[1].at = 1 BY <3>2 DEF Bytes
    <3>4. UnitAt(x, 1, TRUE) = [kind |-> ws[1].kind, len |-> ws[1].len] BY <2>5, <2>6, <3>3 DEF Run
    <3>5. ws[1].len = 1 BY <3>4, <2>3
    <3> QED BY <3>1, <3>3, <3>5 DEF Bytes
  \* Completed, it is longer.
  <2>10. \E c \in Classes : c \in Coming(p) /\ c # Err
    <3> DEFINE q == SubSeq(x, 1, Len(x))
               m == LeadLen(x[1])
               low == q \o [k \in 1..(m - Len(q)) |-> 128]
               high == q \o [k \in 1..(m - Len(q)) |-> 191]
    <3>1. m \in 2..4 /\ 1 + m - 1 > Len(x) /\ \A k \in 1..(Len(x) - 1) : Cont(x[1 + k]) BY <2>2, Shape
    <3> HIDE DEF m
    <3>2. q = x /\ Len(q) \in 1..(m - 1) /\ q # <<>> BY <1>4, <2>2, <3>1
    <3>3. Coming(q) = {Err} \cup ClassesIn(CodePoint(low, 1, m), CodePoint(high, 1, m)) BY <3>2 DEF Coming, m
    <3>4. LeadLen(q[1]) = m BY <3>2 DEF m
    <3>5. \A j \in 2..Len(q) : Cont(q[j])
      <4> SUFFICES ASSUME NEW j \in 2..Len(x) PROVE Cont(x[j]) BY <3>2
      <4>1. j - 1 \in 1..(Len(x) - 1) /\ 1 + (j - 1) = j BY <1>4
      <4> QED BY <4>1, <3>1
    <3> DEFINE l == CodePoint(low, 1, m)
               h == CodePoint(high, 1, m)
    <3>6. q \in Seq(Byte) BY <3>2
    <3> HIDE DEF q
    <3>7. l \in Nat /\ h \in Nat /\ l <= h BY <3>1, <3>2, <3>4, <3>5, <3>6, Bounds
    <3> HIDE DEF l, h
    <3>8. l \in l..h BY <3>7
    <3>9. ClassOf(l) \in ClassesIn(l, h) /\ ClassOf(l) \in Classes BY <3>7, <3>8, Classification
    <3>10. ClassOf(l) # Err BY <3>9 DEF Classes, Err
    <3>11. ClassOf(l) \in Coming(q) BY <3>3, <3>9 DEF l, h
    <3> QED BY <3>9, <3>10, <3>11, <2>1 DEF q
  <2>11. PICK c \in Classes : c \in Coming(p) /\ c # Err BY <2>10
  <2>12. p = SubSeq(x, 1, Len(x)) BY <2>1
  <2>13. c \in Coming(SubSeq(x, 1, Len(x))) BY <2>11, <2>12
  <2>14. PICK y \in Seq(Byte) : 1 \in 1..Len(x \o y) /\ At(x \o y, 1) = c BY <2>2, <2>13, Realized
  <2> DEFINE z == x \o y
             vs == Whole(z)
             g == Classified(vs, z)
  <2>15. z \in Seq(Byte) /\ z # <<>> /\ z[1] = x[1] /\ Len(z) \in Nat BY <2>2
  <2>16. vs \in Seq(Unit) /\ UnitsAre(vs, z, TRUE) BY <2>15, Chosen DEF Whole
  <2>17. Run(vs, z, TRUE) BY <2>16 DEF UnitsAre
  <2> HIDE DEF vs, z
  <2>18. vs # <<>> /\ Len(vs) \in 1..Len(vs) /\ Len(vs) \in Nat /\ 1 \in 1..Len(vs) BY <2>15, <2>16, Nonempty
  <2>19. vs[1].at = Bytes(vs, 1 - 1) + 1 BY <2>15, <2>16, <2>17, <2>18, RunUnit
  <2>20. vs[1].at = 1 BY <2>19 DEF Bytes
  <2>21. UnitAt(z, 1, TRUE) = [kind |-> vs[1].kind, len |-> vs[1].len] BY <2>17, <2>18, <2>20 DEF Run
  <2>22. UnitAt(z, 1, TRUE).kind # "err" BY <2>11, <2>14 DEF At, UnitClass, z
  <2>23. vs[1].len \in 2..4
    <3> DEFINE u == UnitAt(z, 1, TRUE)
    <3>1. 1 \in 1..Len(z) BY <2>14 DEF z
    <3>2. /\ u.kind \in {"char", "err", "more"}
          /\ u.kind = "char" => u.len = LeadLen(z[1]) /\ u.len \in 1..4
          /\ u.kind = "more" => ~TRUE
      BY <3>1, <2>15, Shape
    <3>3. LeadLen(x[1]) \in 2..4 BY <2>2, Shape
    <3> HIDE DEF u
    <3>4. u.kind = "char" /\ u.len = LeadLen(x[1]) BY <3>2, <2>15, <2>22 DEF u
    <3> QED BY <3>3, <3>4, <2>21 DEF u
  <2>24. Bytes(vs, 1) >= 2
    <3>1. Bytes(vs, 1) = vs[1].at + vs[1].len - 1 BY DEF Bytes
    <3> QED BY <3>1, <2>20, <2>23
  <2>25. g \in Seq(Units) /\ Len(g) = Len(vs) BY <2>15, <2>16, <2>17, TextOf
  <2>26. g # <<>> BY <2>18, <2>25
  <2>27. PICK k : First(g, k) BY <2>25, <2>26, HasFirst
  <2>28. FirstToken(z) = Bytes(vs, k) BY <2>15, <2>16, <2>27, TokenOf
  <2>29. k \in 1..Len(vs) BY <2>25, <2>27 DEF First
  <2>30. Bytes(vs, k) >= 2
    <3>1. CASE k = 1 BY <3>1, <2>24
    <3>2. CASE k # 1
      <4>1. 1 \in 0..Len(vs) /\ k \in 0..Len(vs) /\ 1 < k BY <3>2, <2>18, <2>29
      <4>2. Bytes(vs, 1) + 1 <= Bytes(vs, k) /\ Bytes(vs, 1) \in Nat /\ Bytes(vs, k) \in Nat BY <4>1, <2>15, <2>16, <2>17, Later
      <4> QED BY <4>2, <2>24
    <3> QED BY <3>1, <3>2
  <2>31. FirstToken(z) # 1 BY <2>28, <2>30
  <2> QED BY <2>9, <2>31 DEF z
<1>11. CASE n # 0
  <2>1. n \in 1..Len(us) /\ n >= 1 /\ t # <<>> BY <1>4, <1>11
  <2>2. Bytes(us, Len(us)) # 0
    <3>1. Bytes(us, n) \in 1..Len(x) BY <2>1, <1>5
    <3> DEFINE b == Bytes(us, n)
    <3>2. b # 0 BY <3>1, <1>4
    <3> QED BY <3>2, <1>4
  <2>3. bs = {} /\ ~Over(t, Partial(x, us)) BY <2>2, <1>9
  <2>4. Partial(x, us) = p BY <1>4 DEF Partial
  <2>5. PICK c \in Coming(p) : ~Boundary(Append(t, c), n) BY <2>3, <2>4 DEF Over
  \* Now the end: the cluster ends here.
  <2> DEFINE ws == Whole(x)
             w  == Classified(ws, x)
  <2>6. FirstToken(x) = Bytes(us, n)
    <3>1. ws \in Seq(Unit) /\ UnitsAre(ws, x, TRUE) BY Chosen DEF Whole
    <3>2. CASE i = Len(x) + 1
      <4>1. Run(us, x \o <<>>, TRUE) BY <1>1, <1>3, <1>8, RunGrows
      <4>2. Run(us, x, TRUE) BY <4>1, <1>8
      <4> DEFINE b == Bytes(us, Len(us))
      <4>3. b = Len(x) BY <3>2, <1>4, <1>6
      <4>4. UnitsAre(us, x, TRUE)
        <5>1. ~(b < Len(x)) BY <4>3, <1>4
        <5> QED BY <5>1, <4>2 DEF UnitsAre
      <4>5. First(t, n)
        <5>1. n \in 1..n /\ Boundary(t, n) BY <1>4, <2>1, LastBoundary
        <5> QED BY <5>1, <2>3 DEF First
      <4> HIDE DEF t
      <4> QED BY <4>4, <4>5, <1>1, TokenOf DEF t
    <3>3. CASE i # Len(x) + 1
      <4>1. i \in 1..Len(x) /\ UnitAt(x, i, FALSE).kind = "more"
        <5> HIDE DEF i
        <5> QED BY <3>3, <1>4, <1>6, <1>7
      <4>2. At(x, i) = Err BY <4>1, Cutoff
      <4>3. i = Bytes(us, Len(us)) + 1 /\ i \in 1..Len(x \o <<>>) BY <4>1, <1>4, <1>8
      <4>4. /\ w \in Seq(Units) /\ Len(w) = Len(ws) /\ Len(us) < Len(ws) /\ (\A k \in 0..Len(us) : Bytes(ws, k) = Bytes(us, k))
            /\ \E r \in Seq(Units) : w = Append(t, At(x, i)) \o r
        <5> HIDE DEF t, i
        <5> QED BY <4>3, <1>1, <1>8, NextIs DEF t
      <4> HIDE DEF ws, i
      <4>5. PICK r \in Seq(Units) : w = Append(t, Err) \o r BY <4>2, <4>4
      <4> DEFINE s == Append(t, Err)
      <4>6. Err \in Units BY DEF Units
      <4> HIDE DEF w, t
      <4>7. s \in Seq(Units) /\ Len(s) = n + 1 /\ n \in 1..(Len(s) - 1) BY <4>6, <1>4, <2>1
      <4>8. Boundary(s, n) BY <1>4, <2>1, ErrEnds
      <4>9. \A j \in 1..(n - 1) : ~Boundary(s, j)
        <5> SUFFICES ASSUME NEW j \in 1..(n - 1) PROVE ~Boundary(s, j) OBVIOUS
        <5>1. s = t \o <<Err>> BY <1>4, <4>6
        <5>2. <<Err>> \in Seq(Units) BY <4>6
        <5>3. ~Boundary(t, j) BY <2>3
        <5> QED BY <5>1, <5>2, <5>3, <1>4, Local
      <4>10. First(s, n) /\ n < Len(s) BY <4>7, <4>8, <4>9, <1>4 DEF First
      <4> HIDE DEF s
      <4>11. First(w, n) BY <4>5, <4>7, <4>10, Reported DEF s
      <4>12. FirstToken(x) = Bytes(ws, n) BY <3>1, <4>11, TokenOf DEF w
      <4>13. n \in 0..Len(us) BY <1>4
      <4> QED BY <4>4, <4>12, <4>13
    <3> QED BY <3>2, <3>3
  \* And with c behind: it does not.
  <2>7. PICK y \in Seq(Byte) : i \in 1..Len(x \o y) /\ At(x \o y, i) = c
    <3> HIDE DEF i
    <3> QED BY <1>6, <1>7, <2>5, Realized
  <2> DEFINE z == x \o y
             vs == Whole(z)
             g == Classified(vs, z)
  <2>8. i = Bytes(us, Len(us)) + 1 BY <1>4
  <2> HIDE DEF i
  <2>9. /\ z # <<>> /\ vs \in Seq(Unit) /\ UnitsAre(vs, z, TRUE)
        /\ g \in Seq(Units) /\ Len(g) = Len(vs) /\ Len(us) < Len(vs) /\ (\A k \in 0..Len(us) : Bytes(vs, k) = Bytes(us, k))
        /\ c \in Units
        /\ \E r \in Seq(Units) : g = Append(t, c) \o r
    <3> HIDE DEF t
    <3> QED BY <2>7, <2>8, <1>1, NextIs DEF t
  <2>10. z \in Seq(Byte) OBVIOUS
  <2> HIDE DEF vs, z
  <2>11. Run(vs, z, TRUE) BY <2>9 DEF UnitsAre
  <2>12. PICK r \in Seq(Units) : g = Append(t, c) \o r BY <2>9
  <2>13. g # <<>>
    <3> HIDE DEF g
    <3>1. Len(g) > 0 BY <2>9, <1>4
    <3> QED BY <3>1
  <2>14. PICK k : First(g, k) BY <2>9, <2>13, HasFirst
  <2>15. FirstToken(z) = Bytes(vs, k) BY <2>9, <2>10, <2>14, TokenOf
  <2> HIDE DEF g
  <2>16. k \in 1..Len(vs) /\ Boundary(g, k) BY <2>9, <2>14 DEF First
  <2>17. n < k
    <3> SUFFICES ASSUME ~(n < k) PROVE FALSE OBVIOUS
    <3> DEFINE s == Append(t, c)
    <3> HIDE DEF t
    <3>1. s \in Seq(Units) /\ Len(s) = n + 1 BY <1>4, <2>9
    <3>2. k \in 1..(Len(s) - 1) /\ k <= n BY <3>1, <2>16, <1>4
    <3> HIDE DEF s
    <3>3. Boundary(s, k) BY <3>1, <3>2, <2>12, <2>16, Local DEF s
    <3>4. CASE k = n BY <3>3, <3>4, <2>5 DEF s
    <3>5. CASE k # n
      <4>1. k \in 1..(Len(t) - 1) BY <3>2, <3>5, <1>4
      <4>2. s = t \o <<c>> /\ <<c>> \in Seq(Units) BY <1>4, <2>9 DEF s
      <4>3. Boundary(t, k) BY <4>1, <4>2, <3>3, <1>4, Local
      <4> QED BY <4>1, <4>3, <2>3
    <3> QED BY <3>4, <3>5
  <2>18. n \in 0..Len(vs) /\ k \in 0..Len(vs) /\ n \in 0..Len(us)
    <3>1. Len(vs) \in Nat BY <2>9
    <3> QED BY <3>1, <1>4, <2>9, <2>16
  <2>19. Bytes(vs, n) + 1 <= Bytes(vs, k) /\ Bytes(vs, n) \in Nat /\ Bytes(vs, k) \in Nat BY <2>9, <2>10, <2>11, <2>17, <2>18, Later
  <2>20. Bytes(vs, n) = Bytes(us, n) BY <2>9, <2>18
  <2>21. FirstToken(z) # FirstToken(x) BY <2>6, <2>15, <2>19, <2>20
  <2> QED BY <2>21 DEF z
<1> QED BY <1>10, <1>11
=============================================================================
