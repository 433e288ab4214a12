------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Concurrent calls of the split function (C08).  Each caller presents     *)
(* bytes and a flag, and the call proceeds in two steps (it reads its      *)
(* argument, then answers), so that calls interleave.  A result must be    *)
(* Fun(argument): the same whatever else is going on, was going on before, *)
(* or lies behind the presented bytes.                                     *)
(*                                                                         *)
(* Variant "pure" keeps what a call has read in its own local state.  The  *)
(* other variants are negative controls, which the model checker must      *)
(* refute: "scratch" keeps it in storage shared by all calls, "memo"       *)
(* answers from a cache keyed by the buffer's address, "key" from one keyed by a part of the contents, "peek" looks at     *)
(* the byte behind the presented ones, "write" terminates the data in      *)
(* place while it works.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Callers, Contents, Variant
VARIABLES mem,      \* the caller's buffer: address -> content (data, byte behind)
          pc, addr, local, scratch, memo, res, arg
vars == <<mem, pc, addr, local, scratch, memo, res, arg>>
Addrs == {1, 2}
Behind == {0, 1}
Part(x) == IF x = CHOOSE c \in Contents : TRUE THEN 1 ELSE 2   \* all but one content look alike
Fun(x) == <<"answer", x>>
None == <<"none">>
Init == /\ mem \in [Addrs -> [data : Contents, behind : Behind]]
        /\ pc = [g \in Callers |-> "idle"] /\ addr = [g \in Callers |-> 1]
        /\ local = [g \in Callers |-> None] /\ scratch = None
        /\ memo = [a \in Addrs |-> None]
        /\ res = [g \in Callers |-> None] /\ arg = [g \in Callers |-> None]

\* A buffer may be refilled while no call is using it.
Refill(a, x, b) == /\ \A g \in Callers : pc[g] # "idle" => addr[g] # a
                   /\ mem' = [mem EXCEPT ![a] = [data |-> x, behind |-> b]]
                   /\ UNCHANGED <<pc, addr, local, scratch, memo, res, arg>>
Start(g, a) == /\ pc[g] = "idle"
               /\ pc' = [pc EXCEPT ![g] = "read"] /\ addr' = [addr EXCEPT ![g] = a]
               /\ arg' = [arg EXCEPT ![g] = mem[a].data]
               /\ res' = [res EXCEPT ![g] = None]
               /\ UNCHANGED <<mem, local, scratch, memo>>
ReadArg(g) ==
  LET m == mem[addr[g]] IN
  /\ pc[g] = "read" /\ pc' = [pc EXCEPT ![g] = "answer"]
  /\ local' = [local EXCEPT ![g] = m.data]
  /\ scratch' = IF Variant = "scratch" THEN m.data ELSE scratch
  /\ mem' = IF Variant = "write" THEN [mem EXCEPT ![addr[g]].data = CHOOSE c \in Contents : TRUE] ELSE mem
  /\ UNCHANGED <<addr, memo, res, arg>>
Answer(g) ==
  LET a == addr[g]
      r == CASE Variant = "scratch" -> Fun(scratch)
             [] Variant = "memo" /\ memo[a] # None -> memo[a]
             [] Variant = "key" /\ memo[Part(local[g])] # None -> memo[Part(local[g])]
             [] Variant = "peek" /\ mem[a].behind = 1 -> <<"other", local[g]>>
             [] OTHER -> Fun(local[g])
  IN /\ pc[g] = "answer" /\ pc' = [pc EXCEPT ![g] = "idle"]
     /\ res' = [res EXCEPT ![g] = r]
     /\ memo' = [memo EXCEPT ![IF Variant = "key" THEN Part(local[g]) ELSE a] = r]
     /\ local' = [local EXCEPT ![g] = None]
     /\ UNCHANGED <<mem, addr, scratch, arg>>
Next == \/ \E g \in Callers : ReadArg(g) \/ Answer(g) \/ \E a \in Addrs : Start(g, a)
        \/ \E a \in Addrs, x \in Contents, b \in Behind : Refill(a, x, b)
Spec == Init /\ [][Next]_vars
\* The property.
Pure == \A g \in Callers : res[g] # None => res[g] = Fun(arg[g])
Unmodified == \A g \in Callers : pc[g] # "idle" => mem[addr[g]].data = arg[g]
=============================================================================
