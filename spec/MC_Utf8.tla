------------------------------- MODULE MC_Utf8 -------------------------------
(* Every byte string up to MaxLen over one byte per byte class: the          *)
(* transducer's cumulative output is the declarative decoding of every       *)
(* prefix, and flushing its pending bytes as malformed gives the decoding at *)
(* end of input.                                                             *)
EXTENDS Utf8, FiniteSets
CONSTANT MaxLen
VARIABLES d, p, out
Rep(bc) == CASE bc = "ascii" -> 97 [] bc = "cont" -> 129 [] bc = "lead2" -> 204
             [] bc = "lead3" -> 226 [] bc = "lead4" -> 240 [] bc = "bad" -> 255
Ones(k, kind, at) == [j \in 1..k |-> [kind |-> kind, at |-> at + j - 1, len |-> 1]]
End(o) == IF o = <<>> THEN 1 ELSE o[Len(o)].at + o[Len(o)].len
Emit(o, f) == LET o1 == o \o Ones(f.errs, "err", End(o))
              IN IF f.char = 0 THEN o1
                 ELSE o1 \o <<[kind |-> "char", at |-> End(o1), len |-> f.char]>>
Init == d = <<>> /\ p = <<0, 0>> /\ out = <<>>
Next == \E bc \in ByteClasses :
          /\ Len(d) < MaxLen
          /\ d' = Append(d, Rep(bc))
          /\ p' = Feed(p, bc).next
          /\ out' = Emit(out, Feed(p, bc))
Spec == Init /\ [][Next]_<<d, p, out>>
Streaming == out = UnitsOf(d, FALSE)
Flushed   == out \o Ones(p[2], "err", End(out)) = UnitsOf(d, TRUE)
TypeOK    == p \in Pendings
\* Units tile the data (up to the pending tail).
Tiles == LET u == UnitsOf(d, TRUE) IN
         /\ \A k \in 1..(Len(u) - 1) : u[k+1].at = u[k].at + u[k].len
         /\ u # <<>> => u[1].at = 1 /\ End(u) = Len(d) + 1
\* The recursive definition of the units has the property that the proofs use.
Whole == \A e \in BOOLEAN : UnitsAre(UnitsOf(d, e), d, e)
ClassesComplete == \A b \in 0..255 : ByteClass(b) \in ByteClasses
EncodeDecode == \A cp \in {0, 65, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111} :
   LET e == Encode(cp) IN
     UnitAt(e, 1, FALSE) = [kind |-> "char", len |-> Len(e)] /\ CodePoint(e, 1, Len(e)) = cp /\ ~Lenient(cp, Len(e))
ASSUME ClassesComplete /\ EncodeDecode
=============================================================================
