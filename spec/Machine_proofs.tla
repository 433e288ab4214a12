--------------------------- MODULE Machine_proofs ---------------------------
(***************************************************************************)
(* The implemented boundary machine decides the rules of UAX #29 at every  *)
(* adjacent pair of texts of every length, whether or not it is started    *)
(* afresh at any of the boundaries (checked by the TLA+ proof system).     *)
(***************************************************************************)
EXTENDS Monitors_proofs, Machine
ASSUME Code == Variant = "code"

\* The machine's state is a view of the monitors.
Rel(m, st) ==
  /\ m.prev \in Classes
  /\ st \in States
  /\ (st = "AwaitEmojiFlag") <=> m.ri
  /\ (st = "GB11BeforeZWJ") <=> (m.pict = "ext")
  /\ (st = "GB11AfterZWJ") <=> (m.pict = "zwj")
  /\ (st = "GB9cConsonant") <=> (m.conj = "cons")
  /\ (st = "GB9cLinker") <=> (m.conj = "link")
  /\ m.ri => GCB(m.prev) = "RI"
  /\ m.pict = "ext" => GCB(m.prev) \in {"ExtPict", "Extend"}
  /\ m.pict = "zwj" => GCB(m.prev) = "ZWJ"
  /\ m.conj = "link" => InCB(m.prev) \in {"Linker", "Extend"}
  /\ m.conj = "cons" => InCB(m.prev) \in {"Consonant", "Extend"}

Parts(m) == m.ri \in BOOLEAN /\ m.pict \in {"no", "ext", "zwj"} /\ m.conj \in {"no", "cons", "link"}

LEMMA Adv == ASSUME NEW m \in Monitors, NEW c \in Classes
  PROVE LET a == Advance(m, c) IN
   /\ a \in Monitors /\ Parts(m) /\ Parts(a)
   /\ a.prev = c
   /\ a.ri = (GCB(c) = "RI" /\ ~m.ri)
   /\ a.pict = (IF GCB(c) = "ExtPict" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "Extend" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "ZWJ" THEN "zwj"
            ELSE "no")
   /\ a.conj = (IF InCB(c) = "Consonant" THEN "cons"
            ELSE IF m.conj # "no" /\ InCB(c) = "Linker" THEN "link"
            ELSE IF m.conj # "no" /\ InCB(c) = "Extend" THEN m.conj
            ELSE "no")
  BY DEF Advance, Monitors, Parts, Units

\* What the two properties of a class can be together.
LEMMA Cls == ASSUME NEW c \in Classes
  PROVE /\ InCB(c) \in {"Extend", "Linker", "Consonant", "None"}
        /\ InCB(c) = "Consonant" => GCB(c) = "None"
        /\ InCB(c) = "Linker" => GCB(c) = "Extend"
        /\ InCB(c) = "Extend" => GCB(c) \in {"Extend", "ZWJ"}
        /\ GCB(c) \notin {"Extend", "ZWJ", "None"} => InCB(c) = "None"
        /\ c # Err /\ c # "SOT"
  BY DEF InCB, GCB, Classes, Err

LEMMA Started == ASSUME NEW c \in Classes
  PROVE Rel(Advance(SOT, c), Begin(c)) /\ Advance(SOT, c) \in Monitors
<1>1. SOT \in Monitors BY DEF SOT, Monitors
<1> DEFINE a == Advance(SOT, c)
<1>2. /\ a \in Monitors /\ Parts(a) /\ a.prev = c /\ a.ri = (GCB(c) = "RI")
      /\ a.pict = (IF GCB(c) = "ExtPict" THEN "ext" ELSE "no")
      /\ a.conj = (IF InCB(c) = "Consonant" THEN "cons" ELSE "no")
  BY <1>1, Adv DEF SOT
<1> HIDE DEF a
<1> QED BY <1>2, Cls, Code DEF Rel, Begin, NextState, States, Parts, a

LEMMA Stepped == ASSUME NEW m \in Monitors, NEW st, Rel(m, st), NEW c \in Classes
  PROVE Rel(Advance(m, c), NextState(st, c))
<1> DEFINE a == Advance(m, c)
<1>2. /\ Parts(m) /\ Parts(a) /\ a.prev = c
      /\ a.ri = (GCB(c) = "RI" /\ ~m.ri)
   /\ a.pict = (IF GCB(c) = "ExtPict" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "Extend" THEN "ext"
            ELSE IF m.pict = "ext" /\ GCB(c) = "ZWJ" THEN "zwj"
            ELSE "no")
   /\ a.conj = (IF InCB(c) = "Consonant" THEN "cons"
            ELSE IF m.conj # "no" /\ InCB(c) = "Linker" THEN "link"
            ELSE IF m.conj # "no" /\ InCB(c) = "Extend" THEN m.conj
            ELSE "no")
  BY Adv
<1> HIDE DEF a
<1> QED BY <1>2, Cls, Code DEF Rel, NextState, States, Parts, a

LEMMA Splits == ASSUME NEW m \in Monitors, NEW st, Rel(m, st), NEW c \in Classes
  PROVE Split(st, m.prev, c) <=> Break(m, c)
<1> DEFINE p == m.prev
<1>1. Parts(m) BY Adv
<1>2. p \in Classes BY DEF Rel
<1>3. p # "SOT" /\ p # Err /\ c # Err BY <1>2, Cls
<1> HIDE DEF p
<1>4. Break(m, c) <=>
        IF GCB(p) = "CR" /\ GCB(c) = "LF" THEN FALSE
        ELSE IF AnyControl(p) \/ AnyControl(c) THEN TRUE
        ELSE IF GCB(p) = "L" /\ GCB(c) \in {"L", "V", "LV", "LVT"} THEN FALSE
        ELSE IF GCB(p) \in {"LV", "V"} /\ GCB(c) \in {"V", "T"} THEN FALSE
        ELSE IF GCB(p) \in {"LVT", "T"} /\ GCB(c) = "T" THEN FALSE
        ELSE IF GCB(c) \in {"Extend", "ZWJ", "SpacingMark"} THEN FALSE
        ELSE IF GCB(p) = "Prepend" THEN FALSE
        ELSE IF InCB(c) = "Consonant" /\ m.conj = "link" THEN FALSE
        ELSE IF GCB(c) = "ExtPict" /\ m.pict = "zwj" THEN FALSE
        ELSE IF GCB(c) = "RI" /\ m.ri THEN FALSE
        ELSE TRUE
  BY <1>3 DEF Break, p
<1>5. /\ (st = "GB9cLinker" /\ InCB(p) \in {"Linker", "Extend"} /\ InCB(c) = "Consonant") <=> (InCB(c) = "Consonant" /\ m.conj = "link")
      /\ (st = "GB11AfterZWJ" /\ GCB(p) = "ZWJ" /\ GCB(c) = "ExtPict") <=> (GCB(c) = "ExtPict" /\ m.pict = "zwj")
      /\ (st = "AwaitEmojiFlag" /\ GCB(p) = "RI" /\ GCB(c) = "RI") <=> (GCB(c) = "RI" /\ m.ri)
  BY <1>1 DEF Rel, p, Parts
<1> QED BY <1>4, <1>5 DEF Split, p

\* Where there is a boundary, starting afresh comes to the same.
LEMMA Restarted == ASSUME NEW m \in Monitors, NEW st, Rel(m, st), NEW c \in Classes, Break(m, c)
  PROVE Rel(Advance(m, c), Begin(c))
<1> DEFINE a == Advance(m, c)
<1>1. Parts(m) /\ m.prev \in Classes BY Adv DEF Rel
<1>2. GCB(c) \in {"Extend", "ZWJ"} => m.pict = "no" /\ m.conj = "no"
  <2> SUFFICES ASSUME GCB(c) \in {"Extend", "ZWJ"} PROVE m.pict = "no" /\ m.conj = "no" OBVIOUS
  <2>1. AnyControl(m.prev) BY <1>1, Cls DEF Break, AnyControl
  <2> QED BY <2>1, <1>1, Cls DEF AnyControl, Rel, Parts
<1>3. GCB(c) = "RI" => ~m.ri
  <2> SUFFICES ASSUME GCB(c) = "RI", m.ri PROVE FALSE BY <1>1 DEF Parts
  <2>1. GCB(m.prev) = "RI" BY DEF Rel
  <2> QED BY <2>1, <1>1, Cls DEF Break, AnyControl, Rel
<1>4. a = Advance(SOT, c)
  <2>1. InCB(c) \in {"Extend", "Linker"} => m.conj = "no" BY <1>2, Cls
  <2>2. (GCB(c) = "RI" /\ ~m.ri) <=> (GCB(c) = "RI" /\ ~SOT.ri) BY <1>3 DEF SOT
  <2> QED BY <2>1, <2>2, <1>2, Cls DEF Advance, SOT
<1> QED BY <1>4, Started

---------------------------------------------------------------------------
(* A caller that steps the machine through a text of characters.           *)
VARIABLE st
vars == <<text, mon, st>>
Init == \E c \in Classes : text = <<c>> /\ mon = Advance(SOT, c) /\ st = Begin(c)
Next == \E c \in Classes :
          /\ text' = Append(text, c) /\ mon' = Advance(mon, c)
          /\ \/ st' = NextState(st, c)
             \/ Split(st, text[Len(text)], c) /\ st' = Begin(c)
Spec == Init /\ [][Next]_vars

THEOREM MachineCorrect ==
  Spec => [](\A c \in Classes : Split(st, text[Len(text)], c) <=> Boundary(Append(text, c), Len(text)))
<1> DEFINE I == /\ text \in Seq(Units) /\ text # <<>> /\ mon \in Monitors
                /\ Inv(mon, text) /\ Rel(mon, st)
<1>0. Classes \subseteq Units BY DEF Units
<1>p. ASSUME NEW m \in Monitors, NEW s \in Seq(Units), s # <<>>, Inv(m, s) PROVE m.prev = s[Len(s)]
  BY <1>p DEF Inv, Summarises
<1>1. Init => I
  <2> SUFFICES ASSUME Init PROVE I OBVIOUS
  <2>1. PICK c \in Classes : text = <<c>> /\ mon = Advance(SOT, c) /\ st = Begin(c) BY DEF Init
  <2>2. SOT \in Monitors BY DEF SOT, Monitors
  <2>3. Inv(SOT, <<>>) BY Start
  <2>4. c \in Units BY <1>0
  <2>5. <<>> \in Seq(Units) /\ Append(<<>>, c) = <<c>> OBVIOUS
  <2>6. Inv(mon, text) /\ mon \in Monitors BY <2>1, <2>2, <2>3, <2>4, <2>5, Step
  <2> QED BY <2>1, <2>4, <2>6, Started
<1>2. I /\ [Next]_vars => I'
  <2> SUFFICES ASSUME I, [Next]_vars PROVE I' OBVIOUS
  <2>1. CASE Next
    <3>1. PICK c \in Classes : /\ text' = Append(text, c) /\ mon' = Advance(mon, c)
                               /\ \/ st' = NextState(st, c)
                                  \/ Split(st, text[Len(text)], c) /\ st' = Begin(c)
      BY <2>1 DEF Next
    <3>2. c \in Units BY <1>0
    <3>3. Append(text, c) \in Seq(Units) /\ Append(text, c) # <<>> BY <3>2
    <3>4. Inv(Advance(mon, c), Append(text, c)) /\ Advance(mon, c) \in Monitors BY <3>2, Step
    <3>5. mon.prev = text[Len(text)] BY <1>p
    <3>6. Rel(Advance(mon, c), st')
      <4>1. CASE st' = NextState(st, c) BY <4>1, Stepped
      <4>2. CASE Split(st, text[Len(text)], c) /\ st' = Begin(c)
        <5>1. Break(mon, c) BY <4>2, <3>5, Splits
        <5> QED BY <5>1, <4>2, Restarted
      <4> QED BY <4>1, <4>2, <3>1
    <3> QED BY <3>1, <3>3, <3>4, <3>6
  <2>2. CASE UNCHANGED vars BY <2>2 DEF vars
  <2> QED BY <2>1, <2>2
<1>3. I => \A c \in Classes : Split(st, text[Len(text)], c) <=> Boundary(Append(text, c), Len(text))
  <2> SUFFICES ASSUME I, NEW c \in Classes PROVE Split(st, text[Len(text)], c) <=> Boundary(Append(text, c), Len(text)) OBVIOUS
  <2>1. c \in Units BY <1>0
  <2>2. mon.prev = text[Len(text)] BY <1>p
  <2>3. Boundary(Append(text, c), Len(text)) <=> Break(mon, c) BY <2>1, Decides
  <2> QED BY <2>2, <2>3, Splits
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
