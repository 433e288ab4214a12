--------------------------- MODULE Delivery_proofs ---------------------------
(***************************************************************************)
(* What finality (C06) is good for, for inputs of every length and every   *)
(* schedule (checked by the TLA+ proof system): whatever split function    *)
(* reports a token only when no continuation can change it, and always     *)
(* reports one at the end of input, gives the same tokens however the      *)
(* input is delivered (C05), and these cover the input without gap or      *)
(* overlap (C03).  Split_proofs shows that the specification's split       *)
(* function is such a one.                                                 *)
(***************************************************************************)
EXTENDS StreamCore, TLAPS, NaturalsInduction, SequenceTheorems
CONSTANTS Byte,
          W(_)   \* the length of the first token of a whole input

ASSUME Contract ==
  /\ MaxRead \in Nat
  /\ Inputs \subseteq Seq(Byte)
  /\ \A d \in Seq(Byte) : d # <<>> => W(d) \in 1..Len(d)
  /\ \A f \in BOOLEAN : Answers(<<>>, f) = {0}
  /\ \A d \in Seq(Byte) : d # <<>> => Answers(d, TRUE) = {W(d)}
  /\ \A d \in Seq(Byte), e \in Seq(Byte) : \A a \in Answers(d, FALSE) : a > 0 => a = W(d \o e)

Rest(d, p) == SubSeq(d, p + 1, Len(d))

\* e are the ends of the tokens q of d, as far as p.
Ends(e, q, d, p) ==
  /\ e \in [0..Len(q) -> 0..Len(d)]
  /\ e[0] = 0 /\ e[Len(q)] = p
  /\ \A i \in 1..Len(q) : e[i - 1] < Len(d) /\ q[i] = W(Rest(d, e[i - 1])) /\ e[i] = e[i - 1] + q[i]
Chain(q, d, p) == \E e : Ends(e, q, d, p)

LEMMA Cut == ASSUME NEW d \in Seq(Byte), NEW b \in 0..Len(d), NEW a \in 0..b
  PROVE /\ SubSeq(d, a + 1, b) \in Seq(Byte) /\ Rest(d, b) \in Seq(Byte) /\ Rest(d, a) \in Seq(Byte)
        /\ Len(SubSeq(d, a + 1, b)) = b - a
        /\ Len(Rest(d, a)) = Len(d) - a
        /\ SubSeq(d, a + 1, b) \o Rest(d, b) = Rest(d, a)
<1>1. Len(d) \in Nat /\ a \in Nat /\ b \in Nat OBVIOUS
<1>2. /\ SubSeq(d, a + 1, b) \in Seq(Byte) /\ Rest(d, b) \in Seq(Byte) /\ Rest(d, a) \in Seq(Byte)
      /\ Len(SubSeq(d, a + 1, b)) = b - a /\ Len(Rest(d, a)) = Len(d) - a /\ Len(Rest(d, b)) = Len(d) - b
  BY <1>1 DEF Rest
<1>3. SubSeq(d, a + 1, b) \o Rest(d, b) = Rest(d, a)
  <2> DEFINE l == SubSeq(d, a + 1, b) \o Rest(d, b)
             r == Rest(d, a)
  <2>1. l \in Seq(Byte) /\ r \in Seq(Byte) /\ Len(l) = Len(d) - a /\ Len(r) = Len(d) - a BY <1>1, <1>2
  <2>2. ASSUME NEW i \in 1..Len(l) PROVE l[i] = r[i]
    <3>1. CASE i <= b - a BY <3>1, <2>1, <1>1, <1>2 DEF Rest
    <3>2. CASE i > b - a BY <3>2, <2>1, <1>1, <1>2 DEF Rest
    <3> QED BY <3>1, <3>2, <1>1, <2>1
  <2> HIDE DEF l, r
  <2>3. l = r BY <2>1, <2>2, SeqEqual
  <2> QED BY <2>3 DEF l, r
<1> QED BY <1>2, <1>3

Inv == /\ input \in Seq(Byte)
       /\ rd \in 0..Len(input) /\ st \in 0..rd
       /\ eof \in BOOLEAN /\ (eof => rd = Len(input))
       /\ out \in Seq(Nat)
       /\ phase \in {"read", "call", "done"}
       /\ Chain(out, input, st)
       /\ phase = "done" => st = Len(input)
       /\ phase = "read" => ~eof

LEMMA First == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. input \in Seq(Byte) /\ Len(input) \in Nat BY Contract DEF Init
<1>2. Ends([i \in 0..0 |-> 0], <<>>, input, 0)
  <2>1. Len(<<>>) = 0 /\ 0 \in 0..Len(input) BY <1>1
  <2> QED BY <2>1 DEF Ends
<1> QED BY <1>1, <1>2 DEF Init, Inv, Chain

\* An answer to the window is a token of the rest of the input.
LEMMA Answer == ASSUME Inv, NEW adv \in Answers(Window, eof), adv > 0
  PROVE st < Len(input) /\ adv = W(Rest(input, st)) /\ adv \in Nat /\ adv <= Len(input) - st
<1>1. input \in Seq(Byte) /\ rd \in 0..Len(input) /\ st \in 0..rd /\ Len(input) \in Nat /\ st \in Nat /\ rd \in Nat /\ eof \in BOOLEAN BY DEF Inv
<1>2. Window \in Seq(Byte) /\ Len(Window) = rd - st /\ Window \o Rest(input, rd) = Rest(input, st) /\ Rest(input, rd) \in Seq(Byte)
      /\ Rest(input, st) \in Seq(Byte) /\ Len(Rest(input, st)) = Len(input) - st
  BY <1>1, Cut DEF Window
<1>3. Window # <<>> /\ Len(Window) > 0
  <2>1. Window # <<>> BY <1>1, Contract
  <2> QED BY <2>1, <1>2
<1>4. st < Len(input) /\ Rest(input, st) # <<>> BY <1>1, <1>2, <1>3
<1>5. W(Rest(input, st)) \in 1..Len(Rest(input, st)) BY <1>2, <1>4, Contract
<1>6. CASE eof
  <2>1. Window = Rest(input, st) BY <1>6 DEF Inv, Window, Rest
  <2>2. adv \in Answers(Rest(input, st), TRUE) BY <1>6, <1>1, <2>1
  <2>3. adv = W(Rest(input, st)) BY <2>2, <1>2, <1>4, Contract
  <2> QED BY <2>3, <1>4, <1>5, <1>2, <1>1
<1>7. CASE ~eof
  <2>1. adv \in Answers(Window, FALSE) BY <1>7, <1>1
  <2>2. adv = W(Window \o Rest(input, rd)) BY <2>1, <1>2, Contract
  <2> QED BY <2>2, <1>2, <1>4, <1>5, <1>1
<1> QED BY <1>6, <1>7

LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>0. input \in Seq(Byte) /\ rd \in 0..Len(input) /\ st \in 0..rd /\ Len(input) \in Nat /\ st \in Nat /\ rd \in Nat /\ eof \in BOOLEAN
  BY DEF Inv
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv
<1>2. ASSUME NEW k \in 0..MaxRead, Read(k) PROVE Inv'
  <2>1. k \in Nat BY <1>2, Contract
  <2>2. rd' \in 0..Len(input) /\ st \in 0..rd' BY <1>0, <2>1, <1>2 DEF Read
  <2> QED BY <1>2, <2>2 DEF Read, Inv
<1>3. ASSUME NEW k \in 0..MaxRead, ReadEOF(k) PROVE Inv'
  <2>1. k \in Nat BY <1>3, Contract
  <2>2. rd' = Len(input) /\ rd' \in 0..Len(input) /\ st \in 0..rd' BY <1>0, <2>1, <1>3 DEF ReadEOF
  <2> QED BY <1>3, <2>2 DEF ReadEOF, Inv
<1>4. ASSUME NEW adv \in 0..(rd - st), Call(adv) PROVE Inv'
  <2>1. adv \in Nat /\ adv \in Answers(Window, eof) /\ Consume(adv) BY <1>4, <1>0 DEF Call
  <2>2. CASE adv > 0
    <3>1. st < Len(input) /\ adv = W(Rest(input, st)) /\ adv <= Len(input) - st BY <2>1, <2>2, Answer
    <3>2. st' = st + adv /\ out' = Append(out, adv) /\ input' = input /\ rd' = rd /\ eof' = eof
          /\ phase' = IF rd > st + adv \/ eof THEN "call" ELSE "read"
      BY <2>1, <2>2 DEF Consume
    <3>3. st' \in 0..rd' BY <3>2, <1>0, <1>4
    <3>4. out \in Seq(Nat) /\ out' \in Seq(Nat) BY <3>2, <2>1 DEF Inv
    <3>5. Chain(out', input', st')
      <4>1. PICK e : Ends(e, out, input, st) BY DEF Inv, Chain
      <4> DEFINE n == Len(out)
                 f == [i \in 0..(n + 1) |-> IF i <= n THEN e[i] ELSE st + adv]
      <4>2. n \in Nat /\ Len(out') = n + 1 /\ out'[n + 1] = adv /\ \A i \in 1..n : out'[i] = out[i] BY <3>4, <3>2, <2>1
      <4>3. st + adv \in 0..Len(input) BY <3>1, <1>0, <2>1
      <4>4. \A i \in 0..n : i \in 0..(n + 1) /\ f[i] = e[i] BY <4>2
      <4>5. f[n + 1] = st + adv /\ n + 1 \in 0..(n + 1) BY <4>2
      <4>6. \A i \in 0..n : e[i] \in 0..Len(input) BY <4>1 DEF Ends
      <4>7. f \in [0..(n + 1) -> 0..Len(input)]
        <5>1. ASSUME NEW i \in 0..(n + 1) PROVE (IF i <= n THEN e[i] ELSE st + adv) \in 0..Len(input)
          <6>1. CASE i <= n BY <6>1, <4>2, <4>6
          <6>2. CASE ~(i <= n) BY <6>2, <4>3
          <6> QED BY <6>1, <6>2
        <5> QED BY <5>1
      <4> HIDE DEF f, n
      <4>8. f[0] = 0 BY <4>1, <4>2, <4>4 DEF Ends, n
      <4>9. e[n] = st BY <4>1 DEF Ends, n
      <4>10. ASSUME NEW i \in 1..(n + 1)
             PROVE f[i - 1] < Len(input) /\ out'[i] = W(Rest(input, f[i - 1])) /\ f[i] = f[i - 1] + out'[i]
        <5>1. CASE i <= n
          <6>1. i \in 1..n /\ i \in 0..n /\ i - 1 \in 0..n BY <5>1, <4>2
          <6>2. e[i - 1] < Len(input) /\ out[i] = W(Rest(input, e[i - 1])) /\ e[i] = e[i - 1] + out[i]
            BY <6>1, <4>1 DEF Ends, n
          <6> QED BY <6>1, <6>2, <4>2, <4>4
        <5>2. CASE i = n + 1
          <6>1. i - 1 = n /\ n \in 0..n BY <5>2, <4>2
          <6>2. f[i - 1] = st BY <6>1, <4>4, <4>9
          <6> QED BY <6>1, <6>2, <5>2, <4>2, <4>5, <3>1
        <5> QED BY <5>1, <5>2, <4>2
      <4>11. Ends(f, out', input', st') BY <3>2, <4>2, <4>5, <4>7, <4>8, <4>10 DEF Ends
      <4> QED BY <4>11 DEF Chain
    <3>6. phase' \in {"read", "call", "done"} /\ phase' # "done" /\ (phase' = "read" => ~eof') BY <3>2
    <3> QED BY <3>2, <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>3. CASE adv = 0
    <3>1. UNCHANGED <<st, out, input, rd, eof>> /\ phase' = IF eof THEN "done" ELSE "read" BY <2>1, <2>3 DEF Consume
    <3>2. eof => st = Len(input)
      <4> SUFFICES ASSUME eof, st # Len(input) PROVE FALSE OBVIOUS
      <4>1. Window = Rest(input, st) BY DEF Inv, Window, Rest
      <4>2. Rest(input, st) \in Seq(Byte) /\ Len(Rest(input, st)) = Len(input) - st BY <1>0, Cut
      <4>3. Rest(input, st) # <<>> BY <4>2, <1>0
      <4>4. 0 \in Answers(Rest(input, st), TRUE) BY <2>1, <2>3, <4>1, <1>0
      <4>5. W(Rest(input, st)) = 0 BY <4>2, <4>3, <4>4, Contract
      <4> QED BY <4>2, <4>3, <4>5, Contract
    <3> QED BY <3>1, <3>2 DEF Inv
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next, Reads, Calls

THEOREM Delivered == Spec => [](Chain(out, input, st) /\ (phase = "done" => Chain(out, input, Len(input))))
<1>1. Spec => []Inv BY First, Step, PTL DEF Spec
<1>2. Inv => Chain(out, input, st) /\ (phase = "done" => Chain(out, input, Len(input))) BY DEF Inv
<1> QED BY <1>1, <1>2, PTL

\* There is one such chain: the schedule does not matter.
THEOREM Same == ASSUME NEW d \in Seq(Byte), NEW q1 \in Seq(Nat), NEW q2 \in Seq(Nat), Chain(q1, d, Len(d)), Chain(q2, d, Len(d))
  PROVE q1 = q2
<1>1. PICK e1 : Ends(e1, q1, d, Len(d)) BY DEF Chain
<1>2. PICK e2 : Ends(e2, q2, d, Len(d)) BY DEF Chain
<1>3. Len(q1) \in Nat /\ Len(q2) \in Nat /\ Len(d) \in Nat OBVIOUS
<1> DEFINE P(i) == i <= Len(q1) /\ i <= Len(q2) => e1[i] = e2[i] /\ (i > 0 => q1[i] = q2[i])
<1>4. \A i \in Nat : P(i)
  <2>1. P(0) BY <1>1, <1>2 DEF Ends
  <2>2. ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
    <3> SUFFICES ASSUME i + 1 <= Len(q1), i + 1 <= Len(q2) PROVE e1[i + 1] = e2[i + 1] /\ q1[i + 1] = q2[i + 1] OBVIOUS
    <3>1. e1[i] = e2[i] BY <2>2, <1>3
    <3>2. i + 1 \in 1..Len(q1) /\ i + 1 \in 1..Len(q2) /\ (i + 1) - 1 = i BY <1>3
    <3>3. q1[i + 1] = W(Rest(d, e1[i])) /\ e1[i + 1] = e1[i] + q1[i + 1] BY <3>2, <1>1 DEF Ends
    <3>4. q2[i + 1] = W(Rest(d, e2[i])) /\ e2[i + 1] = e2[i] + q2[i + 1] BY <3>2, <1>2 DEF Ends
    <3> QED BY <3>1, <3>3, <3>4
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa
<1>5. ~(Len(q1) < Len(q2))
  <2> SUFFICES ASSUME Len(q1) < Len(q2) PROVE FALSE OBVIOUS
  <2>1. e1[Len(q1)] = e2[Len(q1)] BY <1>3, <1>4
  <2>2. e1[Len(q1)] = Len(d) BY <1>1 DEF Ends
  <2>3. Len(q1) + 1 \in 1..Len(q2) /\ (Len(q1) + 1) - 1 = Len(q1) BY <1>3
  <2>4. e2[Len(q1)] < Len(d) BY <2>3, <1>2 DEF Ends
  <2> QED BY <2>1, <2>2, <2>4, <1>3
<1>6. ~(Len(q2) < Len(q1))
  <2> SUFFICES ASSUME Len(q2) < Len(q1) PROVE FALSE OBVIOUS
  <2>1. e1[Len(q2)] = e2[Len(q2)] BY <1>3, <1>4
  <2>2. e2[Len(q2)] = Len(d) BY <1>2 DEF Ends
  <2>3. Len(q2) + 1 \in 1..Len(q1) /\ (Len(q2) + 1) - 1 = Len(q2) BY <1>3
  <2>4. e1[Len(q2)] < Len(d) BY <2>3, <1>1 DEF Ends
  <2> QED BY <2>1, <2>2, <2>4, <1>3
<1>7. Len(q1) = Len(q2) BY <1>3, <1>5, <1>6
<1>8. ASSUME NEW i \in 1..Len(q1) PROVE q1[i] = q2[i] BY <1>3, <1>4, <1>7
<1> QED BY <1>7, <1>8, SeqEqual
=============================================================================
