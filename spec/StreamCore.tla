----------------------------- MODULE StreamCore -----------------------------
(***************************************************************************)
(* A stream consumer driving a split function the way bufio.Scanner        *)
(* does: a reader delivers the input in arbitrary chunks (possibly empty,  *)
(* possibly together with end of input); the consumer calls the split      *)
(* function on the unconsumed window whenever something new arrived, cuts  *)
(* off the tokens it returns, and reads more when it is told to.           *)
(*                                                                         *)
(* One action per step of the implementation that can interleave:          *)
(* Read, ReadEOF, Call (with its answer), Finish.  Which answers there are *)
(* is left open here: Stream has those of the specification's split        *)
(* function, Delivery_proofs any that are final.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Answers(_, _),   \* what the split function may answer
          Inputs,          \* the byte strings to explore
          MaxRead,         \* largest chunk delivered by one read
          EmptyReads       \* BOOLEAN: may a read deliver nothing?
VARIABLES input, rd, st, eof, out, phase
vars == <<input, rd, st, eof, out, phase>>
\* phase: "call" the window must be presented to the split function;
\*        "read" the split function asked for more; "done".

Window == SubSeq(input, st + 1, rd)

Init == /\ input \in Inputs /\ rd = 0 /\ st = 0 /\ eof = FALSE
        /\ out = <<>> /\ phase = "read"

Read(k) == /\ phase = "read" /\ ~eof
           /\ k <= MaxRead /\ rd + k <= Len(input) /\ (k = 0 => EmptyReads)
           /\ rd' = rd + k
           /\ phase' = IF k = 0 THEN "read" ELSE "call"
           /\ UNCHANGED <<input, st, eof, out>>

\* The reader reports end of input, together with its last k bytes.
ReadEOF(k) == /\ phase = "read" /\ ~eof
              /\ k <= MaxRead /\ rd + k = Len(input)
              /\ rd' = rd + k /\ eof' = TRUE /\ phase' = "call"
              /\ UNCHANGED <<input, st, out>>

\* What the consumer does with an answer, whatever it is.
Consume(adv) == /\ phase = "call"
                /\ IF adv > 0
                   THEN /\ st' = st + adv
                        /\ out' = Append(out, adv)
                        /\ phase' = IF rd > st + adv \/ eof THEN "call" ELSE "read"
                   ELSE /\ UNCHANGED <<st, out>>
                        /\ phase' = IF eof THEN "done" ELSE "read"
                /\ UNCHANGED <<input, rd, eof>>
Call(adv) == adv \in Answers(Window, eof) /\ Consume(adv)

Reads == \/ \E k \in 0..MaxRead : Read(k) \/ ReadEOF(k)
Calls == \E adv \in 0..(rd - st) : Call(adv)
Next  == Reads \/ Calls
\* Progress: the reader eventually delivers something or ends; calls return.
Progressing == \/ \E k \in 1..MaxRead : Read(k)
               \/ \E k \in 0..MaxRead : ReadEOF(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Calls) /\ WF_vars(Progressing)
=============================================================================
