------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Hands the specification to the conformance driver: TLC explores the     *)
(* look-back automaton and the UTF-8 transducer and writes their complete  *)
(* transition tables.  The driver contains no rules of its own, it only    *)
(* walks these tables.                                                     *)
(***************************************************************************)
EXTENDS LookBack, Utf8, Json, IOUtils, TLC, SequencesExt, FiniteSetsExt

\* Reachable monitor states, by fixpoint.
RECURSIVE Close(_, _)
Close(seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET new == {Advance(m, c) : m \in frontier, c \in Units} \ seen
       IN Close(seen \cup new, new)
Reach == Close({SOT}, {SOT})
Seq_ == <<SOT>> \o SetToSeq(Reach \ {SOT})
Id(m) == (CHOOSE i \in 1..Len(Seq_) : Seq_[i] = m) - 1
IdOf == [m \in Reach |-> Id(m)]
UnitSeq == SetToSeq(Units)

Automaton == [i \in 1..Len(Seq_) |->
   [state |-> Seq_[i],
    trans |-> [c \in Units |-> [brk |-> Break(Seq_[i], c), next |-> IdOf[Advance(Seq_[i], c)]]]]]

PSeq == <<<<0, 0>>>> \o SetToSeq(Pendings \ {<<0, 0>>})
PId(p) == (CHOOSE i \in 1..Len(PSeq) : PSeq[i] = p) - 1
Transducer == [i \in 1..Len(PSeq) |->
   [pending |-> PSeq[i],
    feed |-> [bc \in ByteClasses |-> LET f == Feed(PSeq[i], bc) IN
                [errs |-> f.errs, char |-> f.char, next |-> PId(f.next)]]]]

Tables == [units      |-> UnitSeq,
           gcb        |-> [c \in Classes |-> GCB(c)],
           incb       |-> [c \in Classes |-> InCB(c)],
           closed     |-> [c \in Units |-> c \in {"LF", "Control", Err}],
           automaton  |-> Automaton,
           byteClass  |-> [b \in 1..256 |-> ByteClass(b - 1)],
           transducer |-> Transducer]

ASSUME JsonSerialize(IOEnv.TABLES_OUT, Tables)
ASSUME PrintT(<<"EXPORTED", Len(Seq_), Len(PSeq)>>)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
