----------------------------- MODULE PropTable -----------------------------
(***************************************************************************)
(* The table generator (gentable/generate.go) and the table lookup         *)
(* (charprops/property_table.go) at a reduced radix.                       *)
(*                                                                         *)
(* A character is a path: <<i>> (ASCII, looked up directly) or a lead byte *)
(* followed by continuation bytes.  The real code has blocks of 64, a root *)
(* of 64 lead bytes and paths of 2 to 4 bytes; here blocks have BS slots   *)
(* and the root has Root entries, of which entry r leads to paths with     *)
(* Levels[r] intermediate index blocks.  As in the code, everything is     *)
(* kept in two flat arrays (indices, properties) in which block b starts   *)
(* at b*BS, index 0 means "none" while the tree is being built, and the    *)
(* finished table must not contain index 0.                                *)
(*                                                                         *)
(* Set / SetEmoji / OrConj insert properties in any order of characters;   *)
(* Finish compacts.  Variant selects the code as it is ("code") or a       *)
(* negative control:                                                       *)
(*   "shareZero"  non-ASCII blocks may share ASCII block 0 (the code       *)
(*                before the fix)                                          *)
(*   "narrow"     block offsets are computed modulo Width (likewise)       *)
(*   "weakKey"    blocks are shared when their first slots agree           *)
(*   "noOr"       conjunct values replace instead of combine               *)
(*   "lostRoot"   the root is filled in before its children                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BS, Levels, Variant, Width, MaxOps, Kinds
Root == Len(Levels)
ASSUME Root % BS = 0

Ascii == {<<k>> : k \in 0..(2 * BS - 1)}
Tails(n) == [1..n -> 0..(BS - 1)]
Paths == Ascii \cup UNION {{<<r - 1>> \o t : t \in Tails(Levels[r] + 1)} : r \in 1..Root}

Zeros(n) == [k \in 1..n |-> 0]
At(a, off) == a[off + 1]
Put(a, off, v) == [a EXCEPT ![off + 1] = v]
Block(a, b) == SubSeq(a, b * BS + 1, b * BS + BS)
Off(b) == IF Variant = "narrow" THEN (b * BS) % Width ELSE b * BS

VARIABLES props, indices,   \* tree in progress
          want,             \* what the data files say: path -> [brk, conj]
          phase,            \* "brk", "emoji", "conj" (the three files, in this order), "done", "refused"
          table, ops
vars == <<props, indices, want, phase, table, ops>>

Init == /\ props = Zeros(2 * BS) /\ indices = Zeros(Root)
        /\ want = [p \in Paths |-> 0] /\ phase = "brk" /\ table = <<>> /\ ops = 0

---------------------------------------------------------------------------
(* ensureProps: walk down, allocating blocks; returns arrays and position. *)
RECURSIVE Descend(_, _, _, _, _)
Descend(ind, pr, block, path, k) ==
  LET at == Off(block) + path[k] IN          \* position in indices
  IF k = Len(path) - 1
  THEN IF At(ind, at) # 0 THEN [ind |-> ind, pr |-> pr, pos |-> At(ind, at) * BS + path[k + 1]]
       ELSE LET nb == Len(pr) \div BS IN
            [ind |-> Put(ind, at, nb), pr |-> pr \o Zeros(BS), pos |-> nb * BS + path[k + 1]]
  ELSE IF At(ind, at) # 0 THEN Descend(ind, pr, At(ind, at), path, k + 1)
       ELSE LET nb == Len(ind) \div BS IN
            Descend(Put(ind \o Zeros(BS), at, nb), pr, nb, path, k + 1)
Ensure(path) == IF Len(path) = 1 THEN [ind |-> indices, pr |-> props, pos |-> path[1]]
                ELSE Descend(indices, props, 0, path, 1)

\* Values: break property 1, pictographic 2, conjunct value 4.
Insert(path, f(_)) ==
  LET e == Ensure(path) IN
  /\ indices' = e.ind /\ props' = Put(e.pr, e.pos, f(At(e.pr, e.pos)))
  /\ ops' = ops + 1 /\ UNCHANGED table
SetBreak(p) == /\ phase = "brk" /\ "brk" \in Kinds /\ want[p] = 0
               /\ Insert(p, LAMBDA v : 1) /\ want' = [want EXCEPT ![p] = 1] /\ UNCHANGED phase
SetEmoji(p) == /\ phase \in {"brk", "emoji"} /\ "emoji" \in Kinds /\ want[p] # 2
               /\ IF At(Ensure(p).pr, Ensure(p).pos) # 0
                  THEN phase' = "refused" /\ want' = [want EXCEPT ![p] = 3] /\ UNCHANGED <<props, indices, table, ops>>
                  ELSE Insert(p, LAMBDA v : 2) /\ want' = [want EXCEPT ![p] = 2] /\ phase' = "emoji"
OrConj(p) == /\ phase \in {"brk", "emoji", "conj"} /\ "conj" \in Kinds /\ want[p] < 4
             /\ Insert(p, LAMBDA v : IF Variant = "noOr" THEN 4 ELSE v + 4)
             /\ want' = [want EXCEPT ![p] = @ + 4] /\ phase' = "conj"

---------------------------------------------------------------------------
(* Compact: rebuild the tree top-down, sharing equal blocks.  ret carries  *)
(* the new arrays and the two block dictionaries (sequences of             *)
(* <<key, index>>).  The code passes its dictionaries in alternating order *)
(* down the levels; since their keys differ in length this only reduces    *)
(* sharing, and it is modelled (level parity).                             *)
Find(dict, key) ==
  LET m == {k \in 1..Len(dict) :
              IF Variant = "weakKey" THEN Len(dict[k][1]) = Len(key) /\ dict[k][1][2] = key[2]
              ELSE dict[k][1] = key}
  IN IF m = {} THEN -1 ELSE dict[CHOOSE k \in m : TRUE][2]
IKey(b) == <<-1>> \o b      \* different length from property keys

\* one leaf: returns [ret, idx]
Leaf(ret, src, parity) ==
  LET b == IF src = 0 THEN Zeros(BS) ELSE Block(props, src)
      dict == ret.dicts[parity]
      f == Find(dict, b)
  IN IF f >= 0 THEN [ret |-> ret, idx |-> f]
     ELSE LET nb == Len(ret.props) \div BS IN
          [ret |-> [ret EXCEPT !.props = @ \o b, !.dicts[parity] = Append(@, <<b, nb>>)], idx |-> nb]
RECURSIVE Sub(_, _, _, _)
RECURSIVE Children(_, _, _, _, _, _)
Children(ret, block, level, parity, k, acc) ==
  IF k > BS THEN [ret |-> ret, block |-> acc]
  ELSE LET r == Sub(ret, block[k], level - 1, 3 - parity) IN
       Children(r.ret, block, level, parity, k + 1, Append(acc, r.idx))
Sub(ret, src, level, parity) ==
  IF level = 0 THEN Leaf(ret, src, parity)
  ELSE LET b == IF src = 0 THEN Zeros(BS) ELSE Block(indices, src)
           c == Children(ret, b, level, parity, 1, <<>>)
           f == Find(c.ret.dicts[3 - parity], IKey(c.block))
       IN IF f >= 0 THEN [ret |-> c.ret, idx |-> f]
          ELSE LET nb == Len(c.ret.indices) \div BS IN
               [ret |-> [c.ret EXCEPT !.indices = @ \o c.block,
                                      !.dicts[3 - parity] = Append(@, <<IKey(c.block), nb>>)],
                idx |-> nb]
RECURSIVE Roots(_, _)
Roots(ret, r) ==
  IF r > Root THEN ret
  ELSE LET s == Sub(ret, At(indices, r - 1), Levels[r], 2) IN
       IF Variant = "lostRoot" /\ Len(s.ret.indices) > Len(ret.indices) /\ r > 1 THEN Roots(s.ret, r + 1)
       ELSE Roots([s.ret EXCEPT !.indices = Put(s.ret.indices, r - 1, s.idx)], r + 1)
Compact ==
  LET ascii1 == <<SubSeq(props, BS + 1, 2 * BS), 1>>
      ascii0 == <<SubSeq(props, 1, BS), 0>>
      d == IF Variant = "shareZero" THEN <<ascii0, ascii1>> ELSE <<ascii1>>
  IN Roots([props |-> SubSeq(props, 1, 2 * BS), indices |-> Zeros(Root),
            dicts |-> <<d, <<>>>>], 1)

Finish == /\ phase \in {"brk", "emoji", "conj"}
          /\ LET t == Compact IN
             /\ table' = [props |-> t.props, indices |-> t.indices]
             /\ phase' = IF \E k \in 1..Len(t.indices) : t.indices[k] = 0 THEN "refused" ELSE "done"
          /\ UNCHANGED <<props, indices, want, ops>>

Next == \/ ops < MaxOps /\ \E p \in Paths : SetBreak(p) \/ SetEmoji(p) \/ OrConj(p)
        \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
RECURSIVE Walk(_, _, _)
Walk(block, path, k) ==
  IF k = Len(path) THEN At(table.props, block * BS + path[k])
  ELSE Walk(At(table.indices, block * BS + path[k]), path, k + 1)
Lookup(path) == IF Len(path) = 1 THEN At(table.props, path[1])
                ELSE Walk(At(table.indices, path[1]), path, 2)

Contradictory == \E p \in Paths : want[p] % 4 = 3
\* The table says exactly what the data says, for every character.
Faithful == phase = "done" => \A p \in Paths : Lookup(p) = want[p]
\* Data is refused if and only if it is contradictory.
Refuses  == (phase = "refused") => Contradictory
Contradicts == Contradictory => phase = "refused"
\* Nothing is out of bounds.
InBounds == phase = "done" =>
  /\ \A k \in 1..Len(table.indices) : table.indices[k] * BS < Len(table.indices) + Len(table.props)
  /\ Len(table.indices) % BS = 0 /\ Len(table.props) % BS = 0
\* Compaction never makes the table larger than the tree plus the zero blocks.
Bounded == phase = "done" => /\ Len(table.indices) <= 4 * Len(indices)
=============================================================================
