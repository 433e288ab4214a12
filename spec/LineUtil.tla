------------------------------ MODULE LineUtil ------------------------------
(* Byte strings: trimming, cutting, hexadecimal numbers, lines of a file.  *)
EXTENDS Integers, Sequences
Blank(b) == b = 32 \/ b = 9
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Blank(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
\* Position of the first occurrence of pattern p in s, 0 if none.
Index(s, p) ==
  LET at == {k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p}
  IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A j \in at : k <= j
Before(s, p) == LET k == Index(s, p) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
After(s, p)  == LET k == Index(s, p) IN IF k = 0 THEN <<>> ELSE SubSeq(s, k + Len(p), Len(s))
RECURSIVE Split(_, _)
Split(s, p) == IF Index(s, p) = 0 THEN <<s>> ELSE <<Before(s, p)>> \o Split(After(s, p), p)

HexVal(b) == CASE b >= 48 /\ b <= 57 -> b - 48
               [] b >= 65 /\ b <= 70 -> b - 55
               [] b >= 97 /\ b <= 102 -> b - 87
               [] OTHER -> -1
\* Value of a hexadecimal number; -1 if it is not one or exceeds U+10FFFF.
RECURSIVE HexFold(_, _)
HexFold(s, acc) == IF s = <<>> THEN acc
                   ELSE IF HexVal(s[1]) < 0 \/ acc > 1114111 THEN -1
                   ELSE HexFold(Tail(s), 16 * acc + HexVal(s[1]))
CodePointOf(s) == IF s = <<>> THEN -1
                  ELSE LET v == HexFold(s, 0) IN IF v > 1114111 THEN -1 ELSE v
\* Longer than any code point is written: whether leading zeros beyond that
\* are accepted is left open.
Overlong(s) == Len(s) > 8

\* Lines of a file, without their terminators (LF or CR LF); a final line
\* without terminator counts if it is not empty.
RECURSIVE Lines(_)
DropCR(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Lines(f) == IF f = <<>> THEN <<>>
            ELSE IF Index(f, <<10>>) = 0 THEN <<DropCR(f)>>
            ELSE <<DropCR(Before(f, <<10>>))>> \o Lines(After(f, <<10>>))
=============================================================================
