------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Collecting all tokens of a buffer through a stream scanner that reuses  *)
(* its own storage (C14).  The scanner reads the input in pieces into an   *)
(* array, shifts the unconsumed rest down or moves to a bigger array when  *)
(* the array is full, and gives up with "toolong" at its limit; a token is *)
(* a window onto the array.  Arrays are modelled byte for byte (a cell     *)
(* holds the input position it came from), so that a retained window is    *)
(* seen to change when its cells are overwritten.                          *)
(*                                                                         *)
(* Variant "clone" gives every retained token its own storage.  "alias"    *)
(* (negative control, the published v15 code) retains the window; "once"   *)
(* (negative control) clones only while the first array is in use.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxInput, FirstSize, Limit, Variant
VARIABLES lens,    \* lengths of the tokens the split function recognizes
          heap, cur, start, end, rd, eof, kept, count, phase
vars == <<lens, heap, cur, start, end, rd, eof, kept, count, phase>>

RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1] + Total(Tail(q))
RECURSIVE Splits(_)
Splits(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o q : q \in Splits(n - k)} : k \in 1..n}
N == Total(lens)
Min(a, b) == IF a < b THEN a ELSE b
Size == Len(heap[cur])

Init == /\ lens \in UNION {Splits(n) : n \in 0..MaxInput}
        /\ heap = <<[k \in 1..FirstSize |-> 0]>> /\ cur = 1
        /\ start = 0 /\ end = 0 /\ rd = 0 /\ eof = FALSE
        /\ kept = <<>> /\ count = 0 /\ phase = "read"

\* The split function needs one byte beyond a token to recognize it.
Next_ == IF count < Len(lens) THEN lens[count + 1] ELSE 0
Found == Next_ > 0 /\ end - start >= Next_ + (IF eof THEN 0 ELSE 1)
Keep(a, b) == IF Variant = "clone" \/ (Variant = "once" /\ cur = 1)
              THEN [id |-> 0, own |-> SubSeq(heap[cur], a + 1, b), a |-> 0, b |-> 0]
              ELSE [id |-> cur, own |-> <<>>, a |-> a, b |-> b]
Split == /\ phase = "split"
         /\ IF Found
            THEN /\ kept' = Append(kept, Keep(start, start + Next_))
                 /\ count' = count + 1 /\ start' = start + Next_
                 /\ phase' = IF end > start + Next_ \/ eof THEN "split" ELSE "read"
            ELSE /\ UNCHANGED <<kept, count, start>>
                 /\ phase' = IF eof THEN "done" ELSE "read"
         /\ UNCHANGED <<lens, heap, cur, end, rd, eof>>

\* Room is made as bufio.Scanner does, then something is read.
Shifted == [k \in 1..Size |-> IF k <= end - start THEN heap[cur][start + k] ELSE heap[cur][k]]
DoShift == start > 0 /\ (end = Size \/ 2 * start > Size)
Full(s, e) == e = Size
Read(k) ==
  LET arr == IF DoShift THEN Shifted ELSE heap[cur]
      s == IF DoShift THEN 0 ELSE start
      e == IF DoShift THEN end - start ELSE end
      grow == e = Size
      size == IF grow THEN Min(2 * Size, Limit) ELSE Size
      arr2 == [j \in 1..size |-> IF j <= e - s THEN arr[s + j] ELSE 0]
      base == IF grow THEN arr2 ELSE arr
      s2 == IF grow THEN 0 ELSE s
      e2 == IF grow THEN e - s ELSE e
  IN /\ phase = "read" /\ ~eof
     /\ ~(grow /\ Size >= Limit)
     /\ e2 + k <= size /\ rd + k <= N
     /\ LET filled == [j \in 1..size |-> IF j > e2 /\ j <= e2 + k THEN rd + (j - e2) ELSE base[j]]
        IN heap' = IF grow THEN Append(heap, filled) ELSE [heap EXCEPT ![cur] = filled]
     /\ cur' = IF grow THEN cur + 1 ELSE cur
     /\ start' = s2 /\ end' = e2 + k /\ rd' = rd + k
     /\ eof' = (k = 0)
     /\ (k = 0 => rd = N)
     /\ phase' = "split"
     /\ UNCHANGED <<lens, kept, count>>
TooLong == /\ phase = "read" /\ ~eof /\ end - start = Size /\ Size >= Limit /\ start = 0
           /\ phase' = "toolong" /\ UNCHANGED <<lens, heap, cur, start, end, rd, eof, kept, count>>
Next == Split \/ TooLong \/ \E k \in 0..Limit : Read(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Split) /\ WF_vars(TooLong) /\ WF_vars(\E k \in 0..Limit : Read(k))

Now(t) == IF t.id = 0 THEN t.own ELSE SubSeq(heap[t.id], t.a + 1, t.b)
Wanted(j) == [x \in 1..lens[j] |-> Total(SubSeq(lens, 1, j - 1)) + x]
\* Retained tokens are intact at all times.
Intact == \A j \in 1..Len(kept) : Now(kept[j]) = Wanted(j)
Complete == phase = "done" => Len(kept) = Len(lens) /\ count = Len(lens)
\* The limit is what makes a collection fail, and nothing else.
Limited == /\ phase = "toolong" => \E j \in 1..Len(lens) : lens[j] >= Limit
           /\ phase = "done" => \A j \in 1..Len(lens) : lens[j] <= Limit
Ends == <>(phase \in {"done", "toolong"})
=============================================================================
