-------------------------- MODULE Monitors_proofs --------------------------
(***************************************************************************)
(* The finite look-back monitors decide the rules of UAX #29 for texts of  *)
(* every length (checked by the TLA+ proof system).                        *)
(***************************************************************************)
EXTENDS Monitors, TLAPS, Naturals, Integers

\* A run of regional indicators begins somewhere.
RunStart(s, i) ==
  \E k \in 1..i : /\ \A j \in k..i : GCB(s[j]) = "RI"
                  /\ k = 1 \/ GCB(s[k-1]) # "RI"

Inv(m, s) == /\ Summarises(m, s)
             /\ (Len(s) > 0 /\ GCB(s[Len(s)]) = "RI") => RunStart(s, Len(s))

LEMMA Extend == ASSUME NEW s \in Seq(Units), NEW c \in Units
  PROVE  LET t == Append(s, c) IN
         /\ Len(t) = Len(s) + 1
         /\ Len(s) \in Nat
         /\ t[Len(s) + 1] = c
         /\ \A j \in 1..Len(s) : t[j] = s[j]
  OBVIOUS

LEMMA Start == Inv(SOT, <<>>)
  BY DEF Inv, SOT, Summarises, OddRI, PictExt, PictZWJ, Conj, ConjLinked

LEMMA StepRI == ASSUME NEW s \in Seq(Units), NEW c \in Units,
                       (Len(s) > 0 /\ GCB(s[Len(s)]) = "RI") => RunStart(s, Len(s))
  PROVE  /\ OddRI(Append(s, c), Len(s) + 1) <=> (GCB(c) = "RI" /\ ~OddRI(s, Len(s)))
         /\ GCB(c) = "RI" => RunStart(Append(s, c), Len(s) + 1)
<1> DEFINE t == Append(s, c)
           n == Len(s)
<1>0. n \in Nat /\ t[n + 1] = c /\ \A j \in 1..n : t[j] = s[j]
  BY Extend
<1> HIDE DEF t, n
<1>1. OddRI(t, n + 1) => GCB(c) = "RI"
  BY <1>0 DEF OddRI
<1>2. ASSUME OddRI(t, n + 1), OddRI(s, n) PROVE FALSE
  <2>1. PICK k \in 1..(n + 1) : /\ \A j \in k..(n+1) : GCB(t[j]) = "RI"
                                /\ k = 1 \/ GCB(t[k-1]) # "RI"
                                /\ ((n + 1) - k) % 2 = 0
    BY <1>2 DEF OddRI
  <2>2. PICK l \in 1..n : /\ \A j \in l..n : GCB(s[j]) = "RI"
                          /\ l = 1 \/ GCB(s[l-1]) # "RI"
                          /\ (n - l) % 2 = 0
    BY <1>2 DEF OddRI
  <2>3. k = l
    <3>1. CASE k < l
      <4>1. l - 1 \in k..(n + 1) /\ l - 1 \in 1..n /\ l # 1
        BY <3>1, <1>0
      <4> QED BY <4>1, <2>1, <2>2, <1>0
    <3>2. CASE l < k
      <4>1. k - 1 \in l..n /\ k - 1 \in 1..n /\ k # 1
        BY <3>2, <1>0
      <4> QED BY <4>1, <2>1, <2>2, <1>0
    <3> QED BY <3>1, <3>2, <1>0
  <2> QED BY <2>1, <2>2, <2>3, <1>0
<1>3. ASSUME GCB(c) = "RI", ~OddRI(s, n) PROVE OddRI(t, n + 1)
  <2>1. CASE n = 0
    <3>1. 1 \in 1..(n+1) /\ (\A j \in 1..(n+1) : GCB(t[j]) = "RI") /\ ((n + 1) - 1) % 2 = 0
      BY <2>1, <1>0, <1>3
    <3> QED BY <3>1 DEF OddRI
  <2>2. CASE n > 0 /\ GCB(s[n]) # "RI"
    <3>1. n + 1 \in 1..(n+1) /\ (\A j \in (n+1)..(n+1) : GCB(t[j]) = "RI") /\ ((n + 1) - (n + 1)) % 2 = 0 /\ GCB(t[(n+1)-1]) # "RI"
      BY <2>2, <1>0, <1>3
    <3> QED BY <3>1 DEF OddRI
  <2>3. CASE n > 0 /\ GCB(s[n]) = "RI"
    <3>1. PICK k \in 1..n : /\ \A j \in k..n : GCB(s[j]) = "RI"
                            /\ k = 1 \/ GCB(s[k-1]) # "RI"
      BY <2>3 DEF RunStart, n
    <3>2. (n - k) % 2 # 0
      BY <3>1, <1>3 DEF OddRI
    <3>3. ((n + 1) - k) % 2 = 0
      BY <3>2, <1>0
    <3>4. k \in 1..(n+1) /\ (\A j \in k..(n+1) : GCB(t[j]) = "RI") /\ (k = 1 \/ GCB(t[k-1]) # "RI")
      BY <3>1, <1>0, <1>3
    <3> QED BY <3>3, <3>4 DEF OddRI
  <2> QED BY <2>1, <2>2, <2>3, <1>0
<1>4. ASSUME GCB(c) = "RI" PROVE RunStart(t, n + 1)
  <2>1. CASE n = 0
    <3>1. 1 \in 1..(n+1) /\ (\A j \in 1..(n+1) : GCB(t[j]) = "RI")
      BY <2>1, <1>0, <1>4
    <3> QED BY <3>1 DEF RunStart
  <2>2. CASE n > 0 /\ GCB(s[n]) # "RI"
    <3>1. n + 1 \in 1..(n+1) /\ (\A j \in (n+1)..(n+1) : GCB(t[j]) = "RI") /\ GCB(t[(n+1)-1]) # "RI"
      BY <2>2, <1>0, <1>4
    <3> QED BY <3>1 DEF RunStart
  <2>3. CASE n > 0 /\ GCB(s[n]) = "RI"
    <3>1. PICK k \in 1..n : /\ \A j \in k..n : GCB(s[j]) = "RI"
                            /\ k = 1 \/ GCB(s[k-1]) # "RI"
      BY <2>3 DEF RunStart, n
    <3>4. k \in 1..(n+1) /\ (\A j \in k..(n+1) : GCB(t[j]) = "RI") /\ (k = 1 \/ GCB(t[k-1]) # "RI")
      BY <3>1, <1>0, <1>4
    <3> QED BY <3>4 DEF RunStart
  <2> QED BY <2>1, <2>2, <2>3, <1>0
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF t, n

LEMMA StepPict == ASSUME NEW s \in Seq(Units), NEW c \in Units
  PROVE  /\ PictExt(Append(s, c), Len(s) + 1)
              <=> GCB(c) = "ExtPict" \/ (GCB(c) = "Extend" /\ PictExt(s, Len(s)))
         /\ PictZWJ(Append(s, c), Len(s) + 1)
              <=> (GCB(c) = "ZWJ" /\ PictExt(s, Len(s)))
<1> DEFINE t == Append(s, c)
           n == Len(s)
<1>0. n \in Nat /\ t[n + 1] = c /\ \A j \in 1..n : t[j] = s[j]
  BY Extend
<1> HIDE DEF t, n
<1>1. PictExt(t, n) <=> PictExt(s, n)
  BY <1>0 DEF PictExt
<1>2. ASSUME PictExt(t, n + 1) PROVE GCB(c) = "ExtPict" \/ (GCB(c) = "Extend" /\ PictExt(s, n))
  <2>1. PICK k \in 1..(n+1) : GCB(t[k]) = "ExtPict" /\ \A j \in (k+1)..(n+1) : GCB(t[j]) = "Extend"
    BY <1>2 DEF PictExt
  <2>2. CASE k = n + 1 BY <2>1, <2>2, <1>0
  <2>3. CASE k # n + 1
    <3>1. k \in 1..n /\ n + 1 \in (k+1)..(n+1) /\ \A j \in (k+1)..n : j \in (k+1)..(n+1) /\ j \in 1..n
      BY <2>3, <1>0
    <3> QED BY <3>1, <2>1, <1>0 DEF PictExt
  <2> QED BY <2>2, <2>3
<1>3. ASSUME GCB(c) = "ExtPict" PROVE PictExt(t, n + 1)
  <2>1. n + 1 \in 1..(n+1) /\ GCB(t[n+1]) = "ExtPict" /\ \A j \in ((n+1)+1)..(n+1) : GCB(t[j]) = "Extend"
    BY <1>0, <1>3
  <2> QED BY <2>1 DEF PictExt
<1>4. ASSUME GCB(c) = "Extend", PictExt(s, n) PROVE PictExt(t, n + 1)
  <2>1. PICK k \in 1..n : GCB(s[k]) = "ExtPict" /\ \A j \in (k+1)..n : GCB(s[j]) = "Extend"
    BY <1>4 DEF PictExt
  <2>2. k \in 1..(n+1) /\ GCB(t[k]) = "ExtPict" /\ \A j \in (k+1)..(n+1) : GCB(t[j]) = "Extend"
    BY <2>1, <1>0, <1>4
  <2> QED BY <2>2 DEF PictExt
<1>5. PictZWJ(t, n + 1) <=> (GCB(c) = "ZWJ" /\ PictExt(s, n))
  <2>1. (n + 1) - 1 = n /\ n + 1 >= 1 BY <1>0
  <2> QED BY <2>1, <1>0, <1>1 DEF PictZWJ
<1> QED BY <1>2, <1>3, <1>4, <1>5 DEF t, n

LEMMA StepConj == ASSUME NEW s \in Seq(Units), NEW c \in Units
  PROVE  /\ Conj(Append(s, c), Len(s) + 1)
              <=> InCB(c) = "Consonant" \/ (InCB(c) \in {"Extend", "Linker"} /\ Conj(s, Len(s)))
         /\ ConjLinked(Append(s, c), Len(s) + 1)
              <=> (InCB(c) = "Linker" /\ Conj(s, Len(s))) \/ (InCB(c) = "Extend" /\ ConjLinked(s, Len(s)))
<1> DEFINE t == Append(s, c)
           n == Len(s)
<1>0. n \in Nat /\ t[n + 1] = c /\ \A j \in 1..n : t[j] = s[j]
  BY Extend
<1> HIDE DEF t, n
<1>1. ASSUME Conj(t, n + 1) PROVE InCB(c) = "Consonant" \/ (InCB(c) \in {"Extend", "Linker"} /\ Conj(s, n))
  <2>1. PICK k \in 1..(n+1) : InCB(t[k]) = "Consonant" /\ \A j \in (k+1)..(n+1) : InCB(t[j]) \in {"Extend", "Linker"}
    BY <1>1 DEF Conj
  <2>2. CASE k = n + 1 BY <2>1, <2>2, <1>0
  <2>3. CASE k # n + 1
    <3>1. k \in 1..n /\ n + 1 \in (k+1)..(n+1) /\ \A j \in (k+1)..n : j \in (k+1)..(n+1) /\ j \in 1..n
      BY <2>3, <1>0
    <3> QED BY <3>1, <2>1, <1>0 DEF Conj
  <2> QED BY <2>2, <2>3
<1>2. ASSUME InCB(c) = "Consonant" PROVE Conj(t, n + 1)
  <2>1. n + 1 \in 1..(n+1) /\ InCB(t[n+1]) = "Consonant" /\ \A j \in ((n+1)+1)..(n+1) : InCB(t[j]) \in {"Extend", "Linker"}
    BY <1>0, <1>2
  <2> QED BY <2>1 DEF Conj
<1>3. ASSUME InCB(c) \in {"Extend", "Linker"}, Conj(s, n) PROVE Conj(t, n + 1)
  <2>1. PICK k \in 1..n : InCB(s[k]) = "Consonant" /\ \A j \in (k+1)..n : InCB(s[j]) \in {"Extend", "Linker"}
    BY <1>3 DEF Conj
  <2>2. k \in 1..(n+1) /\ InCB(t[k]) = "Consonant" /\ \A j \in (k+1)..(n+1) : InCB(t[j]) \in {"Extend", "Linker"}
    BY <2>1, <1>0, <1>3
  <2> QED BY <2>2 DEF Conj
<1>4. ASSUME ConjLinked(t, n + 1)
      PROVE  (InCB(c) = "Linker" /\ Conj(s, n)) \/ (InCB(c) = "Extend" /\ ConjLinked(s, n))
  <2>1. PICK k \in 1..(n+1) : /\ InCB(t[k]) = "Consonant"
                              /\ \A j \in (k+1)..(n+1) : InCB(t[j]) \in {"Extend", "Linker"}
                              /\ \E j \in (k+1)..(n+1) : InCB(t[j]) = "Linker"
    BY <1>4 DEF ConjLinked
  <2>2. PICK j \in (k+1)..(n+1) : InCB(t[j]) = "Linker"
    BY <2>1
  <2>3. k \in 1..n /\ n + 1 \in (k+1)..(n+1) /\ \A x \in (k+1)..n : x \in (k+1)..(n+1) /\ x \in 1..n
    BY <2>2, <1>0
  <2>4. Conj(s, n) /\ InCB(c) \in {"Extend", "Linker"}
    BY <2>3, <2>1, <1>0 DEF Conj
  <2>5. CASE InCB(c) = "Linker" BY <2>4, <2>5
  <2>6. CASE InCB(c) # "Linker"
    <3>1. j \in (k+1)..n /\ InCB(s[j]) = "Linker"
      BY <2>2, <2>3, <2>6, <1>0
    <3> QED BY <3>1, <2>1, <2>3, <2>4, <2>6, <1>0 DEF ConjLinked
  <2> QED BY <2>5, <2>6
<1>5. ASSUME InCB(c) = "Linker", Conj(s, n) PROVE ConjLinked(t, n + 1)
  <2>1. PICK k \in 1..n : InCB(s[k]) = "Consonant" /\ \A j \in (k+1)..n : InCB(s[j]) \in {"Extend", "Linker"}
    BY <1>5 DEF Conj
  <2>2. /\ k \in 1..(n+1) /\ InCB(t[k]) = "Consonant"
        /\ \A j \in (k+1)..(n+1) : InCB(t[j]) \in {"Extend", "Linker"}
        /\ n + 1 \in (k+1)..(n+1) /\ InCB(t[n+1]) = "Linker"
    BY <2>1, <1>0, <1>5
  <2> QED BY <2>2 DEF ConjLinked
<1>6. ASSUME InCB(c) = "Extend", ConjLinked(s, n) PROVE ConjLinked(t, n + 1)
  <2>1. PICK k \in 1..n : /\ InCB(s[k]) = "Consonant"
                          /\ \A j \in (k+1)..n : InCB(s[j]) \in {"Extend", "Linker"}
                          /\ \E j \in (k+1)..n : InCB(s[j]) = "Linker"
    BY <1>6 DEF ConjLinked
  <2>2. PICK j \in (k+1)..n : InCB(s[j]) = "Linker"
    BY <2>1
  <2>3. /\ k \in 1..(n+1) /\ InCB(t[k]) = "Consonant"
        /\ \A x \in (k+1)..(n+1) : InCB(t[x]) \in {"Extend", "Linker"}
        /\ j \in (k+1)..(n+1) /\ InCB(t[j]) = "Linker"
    BY <2>1, <2>2, <1>0, <1>6
  <2> QED BY <2>3 DEF ConjLinked
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF t, n

THEOREM Step == ASSUME NEW s \in Seq(Units), NEW c \in Units, NEW m \in Monitors, Inv(m, s)
                PROVE  Inv(Advance(m, c), Append(s, c)) /\ Advance(m, c) \in Monitors
<1> DEFINE t == Append(s, c)
           n == Len(s)
           a == Advance(m, c)
<1>1. /\ n \in Nat /\ Len(t) = n + 1 /\ t[n + 1] = c /\ n + 1 # 0
  BY Extend
<1>2. /\ m.ri \in BOOLEAN /\ m.pict \in {"no", "ext", "zwj"} /\ m.conj \in {"no", "cons", "link"}
  BY DEF Monitors
<1>3. /\ (m.ri <=> OddRI(s, n)) /\ ((m.pict = "ext") <=> PictExt(s, n)) /\ ((m.pict = "zwj") <=> PictZWJ(s, n))
      /\ ((m.conj # "no") <=> Conj(s, n)) /\ ((m.conj = "link") <=> ConjLinked(s, n))
      /\ (n > 0 /\ GCB(s[n]) = "RI") => RunStart(s, n)
  BY DEF Inv, Summarises
<1>4. InCB(c) \in {"Extend", "Linker", "Consonant", "None"}
  BY DEF InCB
<1>5. /\ a.prev = c
      /\ a.ri = (GCB(c) = "RI" /\ ~m.ri)
      /\ a.pict = (IF GCB(c) = "ExtPict" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "Extend" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "ZWJ" THEN "zwj"
            ELSE "no")
      /\ a.conj = (IF InCB(c) = "Consonant" THEN "cons"
            ELSE IF m.conj # "no" /\ InCB(c) = "Linker" THEN "link"
            ELSE IF m.conj # "no" /\ InCB(c) = "Extend" THEN m.conj
            ELSE "no")
  BY DEF Advance
<1>6. a \in Monitors
  BY <1>2, <1>4 DEF Advance, Monitors, Units
<1> HIDE DEF a
<1>7. (a.ri <=> OddRI(t, n + 1)) /\ (GCB(c) = "RI" => RunStart(t, n + 1))
  BY <1>3, <1>5, StepRI
<1>8. (a.pict = "ext" <=> PictExt(t, n + 1)) /\ (a.pict = "zwj" <=> PictZWJ(t, n + 1))
  <2>1. /\ PictExt(t, n + 1) <=> (GCB(c) = "ExtPict" \/ (GCB(c) = "Extend" /\ PictExt(s, n)))
        /\ PictZWJ(t, n + 1) <=> (GCB(c) = "ZWJ" /\ PictExt(s, n))
    BY StepPict
  <2> HIDE DEF t, n
  <2> QED BY <2>1, <1>2, <1>3, <1>5
<1>9. (a.conj # "no" <=> Conj(t, n + 1)) /\ (a.conj = "link" <=> ConjLinked(t, n + 1))
  <2>1. /\ Conj(t, n + 1) <=> (InCB(c) = "Consonant" \/ (InCB(c) \in {"Extend", "Linker"} /\ Conj(s, n)))
        /\ ConjLinked(t, n + 1) <=> ((InCB(c) = "Linker" /\ Conj(s, n)) \/ (InCB(c) = "Extend" /\ ConjLinked(s, n)))
    BY StepConj
  <2> HIDE DEF t, n
  <2> QED BY <2>1, <1>2, <1>3, <1>4, <1>5
<1>10. Summarises(a, t)
  <2> HIDE DEF t, n
  <2>1. Len(t) = n + 1 /\ a.prev = t[n + 1] BY <1>1, <1>5
  <2> QED BY <2>1, <1>1, <1>7, <1>8, <1>9 DEF Summarises
<1>11. Inv(a, t)
  <2> HIDE DEF t, n
  <2> QED BY <1>10, <1>1, <1>7 DEF Inv
<1> QED BY <1>6, <1>11 DEF a

THEOREM Decides == ASSUME NEW s \in Seq(Units), s # <<>>, NEW c \in Units, NEW m \in Monitors, Inv(m, s)
                   PROVE  Boundary(Append(s, c), Len(s)) <=> Break(m, c)
<1> DEFINE t == Append(s, c)
           n == Len(s)
           p == s[Len(s)]
<1>1. n \in Nat /\ n > 0 /\ Len(t) = n + 1 /\ t[n + 1] = c /\ t[n] = p /\ p \in Units
  OBVIOUS
<1>2. /\ m.prev = p
      /\ (m.ri <=> OddRI(s, n)) /\ ((m.pict = "zwj") <=> PictZWJ(s, n)) /\ ((m.conj = "link") <=> ConjLinked(s, n))
  BY <1>1 DEF Inv, Summarises
<1>3. (OddRI(t, n) <=> OddRI(s, n)) /\ (PictZWJ(t, n) <=> PictZWJ(s, n)) /\ (ConjLinked(t, n) <=> ConjLinked(s, n))
  <2>1. \A j \in 1..n : t[j] = s[j] BY Extend
  <2> HIDE DEF t, n
  <2>2. OddRI(t, n) <=> OddRI(s, n) BY <2>1, <1>1 DEF OddRI
  <2>3. ConjLinked(t, n) <=> ConjLinked(s, n) BY <2>1, <1>1 DEF ConjLinked
  <2>4. PictExt(t, n - 1) <=> PictExt(s, n - 1) BY <2>1, <1>1 DEF PictExt
  <2>5. PictZWJ(t, n) <=> PictZWJ(s, n) BY <2>1, <2>4, <1>1 DEF PictZWJ
  <2> QED BY <2>2, <2>3, <2>5
<1>4. p # "SOT"
  BY <1>1 DEF Units, Classes, Err
<1> HIDE DEF t, n, p
<1>5. n # 0 /\ n # Len(t)
  BY <1>1
<1>6. Break(m, c) <=>
        IF GCB(p) = "CR" /\ GCB(c) = "LF" THEN FALSE
        ELSE IF AnyControl(p) \/ AnyControl(c) \/ p = Err \/ c = Err THEN TRUE
        ELSE IF GCB(p) = "L" /\ GCB(c) \in {"L", "V", "LV", "LVT"} THEN FALSE
        ELSE IF GCB(p) \in {"LV", "V"} /\ GCB(c) \in {"V", "T"} THEN FALSE
        ELSE IF GCB(p) \in {"LVT", "T"} /\ GCB(c) = "T" THEN FALSE
        ELSE IF GCB(c) \in {"Extend", "ZWJ", "SpacingMark"} THEN FALSE
        ELSE IF GCB(p) = "Prepend" THEN FALSE
        ELSE IF InCB(c) = "Consonant" /\ ConjLinked(s, n) THEN FALSE
        ELSE IF GCB(c) = "ExtPict" /\ PictZWJ(s, n) THEN FALSE
        ELSE IF GCB(c) = "RI" /\ OddRI(s, n) THEN FALSE
        ELSE TRUE
  BY <1>2, <1>4 DEF Break
<1>7. /\ GB3(t, n) <=> (GCB(p) = "CR" /\ GCB(c) = "LF")
      /\ GB4(t, n) <=> AnyControl(p)
      /\ GB5(t, n) <=> AnyControl(c)
      /\ GBErr(t, n) <=> (p = Err \/ c = Err)
      /\ GB6(t, n) <=> (GCB(p) = "L" /\ GCB(c) \in {"L", "V", "LV", "LVT"})
      /\ GB7(t, n) <=> (GCB(p) \in {"LV", "V"} /\ GCB(c) \in {"V", "T"})
      /\ GB8(t, n) <=> (GCB(p) \in {"LVT", "T"} /\ GCB(c) = "T")
      /\ GB9(t, n) <=> (GCB(c) \in {"Extend", "ZWJ"})
      /\ GB9a(t, n) <=> (GCB(c) = "SpacingMark")
      /\ GB9b(t, n) <=> (GCB(p) = "Prepend")
      /\ GB9c(t, n) <=> (InCB(c) = "Consonant" /\ ConjLinked(s, n))
      /\ GB11(t, n) <=> (GCB(c) = "ExtPict" /\ PictZWJ(s, n))
      /\ GB12_13(t, n) <=> (GCB(c) = "RI" /\ OddRI(s, n))
  BY <1>1, <1>3 DEF GB3, GB4, GB5, GBErr, GB6, GB7, GB8, GB9, GB9a, GB9b, GB9c, GB11, GB12_13
<1>8. Boundary(t, n) <=>
        IF GB3(t, n) THEN FALSE
        ELSE IF GB4(t, n) \/ GB5(t, n) \/ GBErr(t, n) THEN TRUE
        ELSE IF \/ GB6(t, n) \/ GB7(t, n) \/ GB8(t, n) \/ GB9(t, n) \/ GB9a(t, n) \/ GB9b(t, n) \/ GB9c(t, n)
                \/ GB11(t, n) \/ GB12_13(t, n) THEN FALSE
        ELSE TRUE
  <2>1. Decider(t, n) =
       IF      GB3(t, n)     THEN "GB3"
       ELSE IF GB4(t, n)     THEN "GB4"
       ELSE IF GB5(t, n)     THEN "GB5"
       ELSE IF GBErr(t, n)   THEN "GBErr"
       ELSE IF GB6(t, n)     THEN "GB6"
       ELSE IF GB7(t, n)     THEN "GB7"
       ELSE IF GB8(t, n)     THEN "GB8"
       ELSE IF GB9(t, n)     THEN "GB9"
       ELSE IF GB9a(t, n)    THEN "GB9a"
       ELSE IF GB9b(t, n)    THEN "GB9b"
       ELSE IF GB9c(t, n)    THEN "GB9c"
       ELSE IF GB11(t, n)    THEN "GB11"
       ELSE IF GB12_13(t, n) THEN "GB12_13"
       ELSE "GB999"
    BY <1>5 DEF Decider
  <2> QED BY <2>1 DEF Boundary, Breaking
<1> QED BY <1>6, <1>7, <1>8 DEF t, n

\* A text that grows by a unit at a time, with its monitors beside it.
VARIABLES text, mon
Grow_Init == text = <<>> /\ mon = SOT
Grow_Next == \E c \in Units : text' = Append(text, c) /\ mon' = Advance(mon, c)
Grow == Grow_Init /\ [][Grow_Next]_<<text, mon>>

\* At every length: the monitors say where the boundaries are.
THEOREM MonitorsCorrect ==
  Grow => [](text # <<>> => \A c \in Units : Boundary(Append(text, c), Len(text)) <=> Break(mon, c))
<1> DEFINE I == text \in Seq(Units) /\ mon \in Monitors /\ Inv(mon, text)
<1>1. Grow_Init => I
  <2> SUFFICES ASSUME Grow_Init PROVE I OBVIOUS
  <2>1. SOT \in Monitors BY DEF SOT, Monitors
  <2> QED BY <2>1, Start DEF Grow_Init
<1>2. I /\ [Grow_Next]_<<text, mon>> => I'
  <2> SUFFICES ASSUME I, [Grow_Next]_<<text, mon>> PROVE I' OBVIOUS
  <2>1. CASE Grow_Next
    <3>1. PICK c \in Units : text' = Append(text, c) /\ mon' = Advance(mon, c) BY <2>1 DEF Grow_Next
    <3>2. Append(text, c) \in Seq(Units) OBVIOUS
    <3>3. Inv(Advance(mon, c), Append(text, c)) /\ Advance(mon, c) \in Monitors BY Step
    <3> QED BY <3>1, <3>2, <3>3
  <2>2. CASE UNCHANGED <<text, mon>> BY <2>2
  <2> QED BY <2>1, <2>2
<1>3. I => (text # <<>> => \A c \in Units : Boundary(Append(text, c), Len(text)) <=> Break(mon, c))
  BY Decides
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Grow
=============================================================================
