------------------------------ MODULE Utf8Rules ------------------------------
(***************************************************************************)
(* The structural UTF-8 layer: how a byte string falls apart into          *)
(* characters and malformed bytes, (a) declaratively at any position of a  *)
(* buffer that may or may not be the end of the input, and (b) as a        *)
(* streaming transducer over byte classes.                                 *)
(*                                                                         *)
(* "Structural": the lead byte determines the length and every following   *)
(* byte must be a continuation byte.  The documentation deliberately       *)
(* leaves open what happens to overlong, surrogate and out-of-range        *)
(* sequences; Lenient(cp, n) says which those are, and conformance checks  *)
(* only require of them what is promised for all bytes.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LeadLen(b) == CASE b < 128              -> 1
                [] b >= 192 /\ b <= 223 -> 2
                [] b >= 224 /\ b <= 239 -> 3
                [] b >= 240 /\ b <= 247 -> 4
                [] OTHER                -> 0
Cont(b) == b >= 128 /\ b <= 191

(* The first unit of d at position i (1 <= i <= Len(d)):                   *)
(* "char" of len bytes, "err" (one malformed byte), or "more" (the bytes   *)
(* on hand are a proper prefix of a structurally complete sequence).       *)
UnitAt(d, i, eof) ==
  LET n == LeadLen(d[i])
      avail == Len(d) - i + 1
      have == IF avail < n THEN avail ELSE n
  IN  IF n = 0 THEN [kind |-> "err", len |-> 1]
      ELSE IF \E k \in 1..(have - 1) : ~Cont(d[i + k]) THEN [kind |-> "err", len |-> 1]
      ELSE IF avail >= n THEN [kind |-> "char", len |-> n]
      ELSE IF eof THEN [kind |-> "err", len |-> 1]
      ELSE [kind |-> "more", len |-> 0]

(* The units of a whole byte string, as a sequence us of records with kind, *)
(* at (position) and len.                                                  *)

\* Bytes in the first k units.
Bytes(us, k) == IF k = 0 THEN 0 ELSE us[k].at + us[k].len - 1

\* us is the beginning of what d falls apart into.
Run(us, d, eof) ==
  \A k \in 1..Len(us) :
    /\ us[k].at = Bytes(us, k - 1) + 1 /\ us[k].at <= Len(d)
    /\ us[k].kind # "more"
    /\ UnitAt(d, us[k].at, eof) = [kind |-> us[k].kind, len |-> us[k].len]
\* All of it, up to the incomplete character at the end (if any).
UnitsAre(us, d, eof) ==
  LET n == Bytes(us, Len(us))
  IN Run(us, d, eof) /\ (n < Len(d) => UnitAt(d, n + 1, eof).kind = "more")

CodePoint(d, i, n) ==
  CASE n = 1 -> d[i]
    [] n = 2 -> (d[i] - 192) * 64 + (d[i+1] - 128)
    [] n = 3 -> (d[i] - 224) * 4096 + (d[i+1] - 128) * 64 + (d[i+2] - 128)
    [] n = 4 -> (d[i] - 240) * 262144 + (d[i+1] - 128) * 4096 + (d[i+2] - 128) * 64 + (d[i+3] - 128)

MinCP(n) == CASE n = 1 -> 0 [] n = 2 -> 128 [] n = 3 -> 2048 [] n = 4 -> 65536
Lenient(cp, n) == \/ cp < MinCP(n)                    \* overlong
                  \/ cp >= 55296 /\ cp <= 57343       \* surrogate
                  \/ cp > 1114111                     \* out of range

Encode(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

---------------------------------------------------------------------------
(* The transducer.  Pending: a lead byte that wants `need` bytes in all,   *)
(* of which `have` have been seen.  Each byte yields err unit(s), possibly *)
(* a completed character, and a next pending state.                        *)
ByteClasses == {"ascii", "cont", "lead2", "lead3", "lead4", "bad"}
ByteClass(b) == CASE LeadLen(b) = 1 -> "ascii" [] Cont(b) -> "cont"
                  [] LeadLen(b) = 2 -> "lead2" [] LeadLen(b) = 3 -> "lead3"
                  [] LeadLen(b) = 4 -> "lead4" [] OTHER -> "bad"
Pendings == {<<0, 0>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<4, 1>>, <<4, 2>>, <<4, 3>>}

Fresh(bc) ==
  CASE bc = "ascii" -> [errs |-> 0, char |-> 1, next |-> <<0, 0>>]
    [] bc \in {"cont", "bad"} -> [errs |-> 1, char |-> 0, next |-> <<0, 0>>]
    [] bc = "lead2" -> [errs |-> 0, char |-> 0, next |-> <<2, 1>>]
    [] bc = "lead3" -> [errs |-> 0, char |-> 0, next |-> <<3, 1>>]
    [] bc = "lead4" -> [errs |-> 0, char |-> 0, next |-> <<4, 1>>]
\* First `errs` malformed bytes, then (if char > 0) a character of `char` bytes,
\* then (if errs2 > 0) one more malformed byte.
Feed(p, bc) ==
  IF p = <<0, 0>> THEN Fresh(bc)
  ELSE IF bc = "cont"
       THEN IF p[2] + 1 = p[1] THEN [errs |-> 0, char |-> p[1], next |-> <<0, 0>>]
            ELSE [errs |-> 0, char |-> 0, next |-> <<p[1], p[2] + 1>>]
       ELSE LET f == Fresh(bc) IN [f EXCEPT !.errs = f.errs + p[2]]
=============================================================================
