---------------------------- MODULE Final_proofs ----------------------------
(***************************************************************************)
(* What a reported cluster may depend on, for texts of every length        *)
(* (checked by the TLA+ proof system): a boundary with a unit on either    *)
(* side stays whatever follows; so the first cluster that is reported on   *)
(* its evidence is final; and without such evidence the last cluster is    *)
(* open except after a control character or a malformed byte.              *)
(***************************************************************************)
EXTENDS UAX29Rules, TLAPS, Integers

\* Look-back does not see what follows.
LEMMA Contexts == ASSUME NEW s \in Seq(Units), NEW t \in Seq(Units), NEW k \in 0..Len(s)
  PROVE LET u == s \o t IN
        /\ OddRI(u, k) <=> OddRI(s, k)
        /\ PictExt(u, k) <=> PictExt(s, k)
        /\ ConjLinked(u, k) <=> ConjLinked(s, k)
<1> DEFINE u == s \o t
<1>1. Len(s) \in Nat /\ \A j \in 1..k : u[j] = s[j] OBVIOUS
<1> HIDE DEF u
<1>2. OddRI(u, k) <=> OddRI(s, k) BY <1>1 DEF OddRI
<1>3. PictExt(u, k) <=> PictExt(s, k) BY <1>1 DEF PictExt
<1>4. ConjLinked(u, k) <=> ConjLinked(s, k) BY <1>1 DEF ConjLinked
<1> QED BY <1>2, <1>3, <1>4 DEF u

THEOREM Local == ASSUME NEW s \in Seq(Units), NEW t \in Seq(Units), NEW k \in 1..(Len(s) - 1)
  PROVE Boundary(s \o t, k) <=> Boundary(s, k)
<1> DEFINE u == s \o t
<1>1. /\ Len(s) \in Nat /\ Len(u) = Len(s) + Len(t) /\ Len(t) \in Nat
      /\ u[k] = s[k] /\ u[k + 1] = s[k + 1] /\ k # 0 /\ k # Len(s) /\ k # Len(u) /\ k \in 0..Len(s) /\ k - 1 \in 0..Len(s) /\ k >= 1
  OBVIOUS
<1>2. OddRI(u, k) <=> OddRI(s, k) BY <1>1, Contexts
<1>3. ConjLinked(u, k) <=> ConjLinked(s, k) BY <1>1, Contexts
<1>4. PictZWJ(u, k) <=> PictZWJ(s, k) BY <1>1, Contexts DEF PictZWJ
<1> HIDE DEF u
<1>5. Decider(u, k) = Decider(s, k)
  BY <1>1, <1>2, <1>3, <1>4 DEF Decider, GB3, GB4, GB5, GBErr, GB6, GB7, GB8, GB9, GB9a, GB9b, GB9c, GB11, GB12_13
<1> QED BY <1>5 DEF Boundary, u

\* k is where the first cluster of s ends.
First(s, k) == k \in 1..Len(s) /\ Boundary(s, k) /\ \A j \in 1..(k - 1) : ~Boundary(s, j)

LEMMA FirstUnique == ASSUME NEW s \in Seq(Units), NEW k, First(s, k)
  PROVE FirstCluster(s) = k
<1>1. s # <<>> /\ Len(s) \in Nat /\ k \in 1..Len(s) BY DEF First
<1>2. ASSUME NEW i \in 1..Len(s), Boundary(s, i), \A j \in 1..(i - 1) : ~Boundary(s, j) PROVE i = k
  <2>1. ~(i < k) BY <1>1, <1>2 DEF First
  <2>2. ~(k < i) BY <1>1, <1>2 DEF First
  <2> QED BY <2>1, <2>2, <1>1
<1> QED BY <1>1, <1>2 DEF First, FirstCluster

\* A first cluster with a unit behind it on hand is the first cluster of
\* whatever the text becomes (C06).
THEOREM Reported == ASSUME NEW s \in Seq(Units), NEW t \in Seq(Units), NEW k, First(s, k), k < Len(s)
  PROVE First(s \o t, k) /\ FirstCluster(s \o t) = k
<1>1. s \o t \in Seq(Units) /\ Len(s) \in Nat /\ Len(s \o t) >= Len(s) /\ Len(s \o t) \in Nat /\ k \in 1..(Len(s) - 1) BY DEF First
<1>2. Boundary(s \o t, k) BY <1>1, Local DEF First
<1>3. ASSUME NEW j \in 1..(k - 1) PROVE ~Boundary(s \o t, j)
  <2>1. j \in 1..(Len(s) - 1) BY <1>1
  <2> QED BY <2>1, Local DEF First
<1>4. First(s \o t, k) BY <1>1, <1>2, <1>3 DEF First
<1> QED BY <1>1, <1>4, FirstUnique

\* Without one the cluster is open: something may join it, something may end
\* it (C06, C07) ...
LEMMA Kinds == ASSUME NEW c \in Units
  PROVE /\ GCB("Extend") = "Extend" /\ GCB("LF") = "LF" /\ GCB("CR") = "CR" /\ GCB("Control") = "Control" /\ GCB("Err") = "Err"
        /\ c \in Units \ {"CR", "LF", "Control", Err} => ~AnyControl(c) /\ c # Err /\ GCB(c) # "CR"
        /\ ~AnyControl("Extend") /\ AnyControl("Control") /\ "Extend" # Err /\ Err = "Err"
        /\ (GCB(c) = "CR" <=> c = "CR") /\ (GCB(c) = "LF" <=> c = "LF") /\ (GCB(c) = "Control" <=> c = "Control")
  BY DEF GCB, AnyControl, Units, Classes, Err

LEMMA Ends == ASSUME NEW s \in Seq(Units), s # <<>>, NEW c \in Units
  PROVE LET u == Append(s, c)
            n == Len(s)
        IN n \in Nat /\ n >= 1 /\ Len(u) = n + 1 /\ u[n] = s[n] /\ u[n + 1] = c /\ n # 0 /\ n # Len(u) /\ s[n] \in Units
  OBVIOUS

THEOREM Open == ASSUME NEW s \in Seq(Units), s # <<>>, s[Len(s)] \notin {"CR", "LF", "Control", Err}
  PROVE /\ ~Boundary(Append(s, "Extend"), Len(s))
        /\ Boundary(Append(s, "Control"), Len(s))
<1>0. "Extend" \in Units /\ "Control" \in Units BY DEF Units, Classes
<1>1. ~Boundary(Append(s, "Extend"), Len(s))
  <2> DEFINE u == Append(s, "Extend")
             n == Len(s)
  <2>1. n \in Nat /\ n >= 1 /\ Len(u) = n + 1 /\ u[n] = s[n] /\ u[n + 1] = "Extend" /\ n # 0 /\ n # Len(u) /\ s[n] \in Units
    BY <1>0, Ends
  <2> HIDE DEF u, n
  <2>2. ~AnyControl(s[n]) /\ s[n] # Err /\ GCB(s[n]) # "CR" /\ ~AnyControl("Extend") /\ "Extend" # Err /\ GCB("Extend") = "Extend"
    BY <2>1, Kinds DEF n
  <2>3. Decider(u, n) \in {"GB9", "GB6", "GB7", "GB8"}
    BY <2>1, <2>2 DEF Decider, GB3, GB4, GB5, GBErr, GB6, GB7, GB8, GB9
  <2> QED BY <2>3 DEF Boundary, Breaking, u, n
<1>2. Boundary(Append(s, "Control"), Len(s))
  <2> DEFINE u == Append(s, "Control")
             n == Len(s)
  <2>1. n \in Nat /\ n >= 1 /\ Len(u) = n + 1 /\ u[n] = s[n] /\ u[n + 1] = "Control" /\ n # 0 /\ n # Len(u) /\ s[n] \in Units
    BY <1>0, Ends
  <2> HIDE DEF u, n
  <2>2. AnyControl("Control") /\ GCB("Control") = "Control" BY Kinds, <1>0
  <2>3. Decider(u, n) \in {"GB4", "GB5"} BY <2>1, <2>2 DEF Decider, GB3, GB4, GB5
  <2> QED BY <2>3 DEF Boundary, Breaking, u, n
<1> QED BY <1>1, <1>2

\* ... except after CR, which only LF joins, and after other controls and
\* malformed bytes, which nothing joins.
THEOREM Closed == ASSUME NEW s \in Seq(Units), s # <<>>, NEW c \in Units
  PROVE /\ s[Len(s)] \in {"LF", "Control", Err} => Boundary(Append(s, c), Len(s))
        /\ s[Len(s)] = "CR" => (Boundary(Append(s, c), Len(s)) <=> c # "LF")
<1> DEFINE u == Append(s, c)
           n == Len(s)
<1>1. n \in Nat /\ n >= 1 /\ Len(u) = n + 1 /\ u[n] = s[n] /\ u[n + 1] = c /\ n # 0 /\ n # Len(u) /\ s[n] \in Units
  BY Ends
<1> HIDE DEF u, n
<1>2. CASE s[n] \in {"LF", "Control"}
  <2>1. AnyControl(s[n]) /\ GCB(s[n]) # "CR" BY <1>2, <1>1, Kinds DEF AnyControl
  <2>2. Decider(u, n) = "GB4" BY <2>1, <1>1 DEF Decider, GB3, GB4
  <2> QED BY <1>2, <2>2, Kinds, <1>1 DEF Boundary, Breaking, u, n
<1>3. CASE s[n] = Err
  <2>1. ~AnyControl(s[n]) /\ GCB(s[n]) # "CR" BY <1>3, <1>1, Kinds DEF AnyControl
  <2>2. Decider(u, n) \in {"GB5", "GBErr"} BY <2>1, <1>1, <1>3 DEF Decider, GB3, GB4, GB5, GBErr
  <2> QED BY <1>3, <2>2, Kinds, <1>1 DEF Boundary, Breaking, u, n, Err
<1>4. CASE s[n] = "CR"
  <2>1. AnyControl(s[n]) /\ GCB(s[n]) = "CR" BY <1>4, <1>1, Kinds DEF AnyControl
  <2>2. GB3(u, n) <=> c = "LF" BY <2>1, <1>1, Kinds DEF GB3
  <2>3. Decider(u, n) = IF c = "LF" THEN "GB3" ELSE "GB4" BY <2>1, <2>2, <1>1 DEF Decider, GB4
  <2>4. Boundary(u, n) <=> c # "LF" BY <2>3 DEF Boundary, Breaking
  <2> QED BY <1>4, <2>4 DEF u, n, Err
<1> QED BY <1>2, <1>3, <1>4 DEF u, n
=============================================================================
