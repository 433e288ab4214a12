------------------------------ MODULE MC_Rules ------------------------------
(***************************************************************************)
(* Every text up to MaxLen units, one unit appended per step.  The machine *)
(* is run twice beside it: once over the whole text (st) and once          *)
(* restarted after every boundary and every invalid byte (rst), which is   *)
(* how the scanner uses it.  All are compared with the declarative rules.  *)
(***************************************************************************)
EXTENDS LookBack, Machine, TLC
CONSTANT MaxLen, Alphabet
VARIABLES s, m, st, rst
vars == <<s, m, st, rst>>

Init == s = <<>> /\ m = SOT /\ st = "none" /\ rst = "none"

Append1(c) ==
  /\ Len(s) < MaxLen
  /\ s' = Append(s, c)
  /\ m' = Advance(m, c)
  /\ IF c = Err THEN st' = "none" /\ rst' = "none"
     ELSE LET first == s = <<>> \/ s[Len(s)] = Err IN
          /\ st'  = IF first THEN Begin(c) ELSE NextState(st, c)
          /\ rst' = IF first \/ Split(rst, s[Len(s)], c) THEN Begin(c) ELSE NextState(rst, c)

Next == \E c \in Alphabet : Append1(c)
Spec == Init /\ [][Next]_vars

n == Len(s)
MonitorsSummarise == Summarises(m, s)
\* Evaluated with the machine states before the step: as an action property.
StepAgrees ==
  [][ LET c == s'[Len(s')] IN
      /\ (s # <<>>) => (Boundary(s', n) <=> Break(m, c))
      /\ (s # <<>> /\ c # Err /\ s[n] # Err)
           => /\ Boundary(s', n) <=> Split(st, s[n], c)
              /\ Boundary(s', n) <=> Split(rst, s[n], c)
    ]_vars
\* Clusters compose: the clusters of a text are its first cluster followed
\* by the clusters of the rest (what lets a memoryless split function work).
SumLens(q) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE q[i] + F(i-1) IN F(Len(q))
Restartable ==
  s # <<>> => LET k == FirstCluster(s) IN
     /\ ClusterLens(s) = <<k>> \o ClusterLens(SubSeq(s, k+1, n))
     /\ SumLens(ClusterLens(s)) = n
\* Without knowing what follows, exactly the texts that end in a line feed, a
\* control or a malformed byte are certain to be over.
Over(t) == \A c \in Units : Boundary(Append(t, c), Len(t))
Closed == s # <<>> => (Over(s) <=> s[n] \in {"LF", "Control", Err})
\* A boundary never depends on anything to its right.
Causal == \A i \in 1..(n-1) : Boundary(s, i) <=> Boundary(SubSeq(s, 1, i+1), i)
=============================================================================
