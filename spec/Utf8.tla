-------------------------------- MODULE Utf8 --------------------------------
(* The structural UTF-8 layer of Utf8Rules, applied to whole byte strings.   *)
EXTENDS Utf8Rules

\* All units of d, in order, up to the incomplete tail (if any).
RECURSIVE UnitsFrom(_, _, _)
UnitsFrom(d, i, eof) ==
  IF i > Len(d) THEN <<>>
  ELSE LET u == UnitAt(d, i, eof) IN
       IF u.kind = "more" THEN <<>>
       ELSE <<[kind |-> u.kind, at |-> i, len |-> u.len]>> \o UnitsFrom(d, i + u.len, eof)
UnitsOf(d, eof) == UnitsFrom(d, 1, eof)

=============================================================================
