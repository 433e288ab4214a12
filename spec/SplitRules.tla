----------------------------- MODULE SplitRules -----------------------------
(***************************************************************************)
(* What one call of the split function may answer for presented bytes d    *)
(* that fall apart into the units us, and end-of-input flag eof.  The      *)
(* answers are a set: the specification leaves                             *)
(* open whether a cluster that is certainly complete, but whose successor  *)
(* has not been seen (e.g. after LF), or of which only the first bytes     *)
(* have been seen (e.g. "a" before the lead byte of a Latin letter), is    *)
(* reported at once or on the next call.  0 means "need more data".        *)
(***************************************************************************)
EXTENDS UAX29Rules, Utf8Rules
CONSTANTS ClassOf(_),      \* code point -> class
          ClassesIn(_, _)  \* the classes of all code points from one to another

UnitClass(d, u) == IF u.kind = "err" THEN Err ELSE ClassOf(CodePoint(d, u.at, u.len))
Classified(us, d) == [k \in 1..Len(us) |-> UnitClass(d, us[k])]

\* The bytes of an incomplete character at the end of d, and the units that
\* they can become the beginning of.
Partial(d, us) == LET n == Bytes(us, Len(us)) IN SubSeq(d, n + 1, Len(d))
Coming(p) == IF p = <<>> THEN Units
             ELSE LET n == LeadLen(p[1])
                      low  == p \o [k \in 1..(n - Len(p)) |-> 128]
                      high == p \o [k \in 1..(n - Len(p)) |-> 191]
                  IN {Err} \cup ClassesIn(CodePoint(low, 1, n), CodePoint(high, 1, n))
\* The text t is over whatever comes.
Over(t, p) == \A c \in Coming(p) : Boundary(Append(t, c), Len(t))

AnswersFor(us, d, eof) ==
  IF d = <<>> THEN {0}
  ELSE LET t  == Classified(us, d)
           bs == {k \in 1..(Len(t) - 1) : Boundary(t, k)}
       IN  IF bs # {} THEN {Bytes(us, CHOOSE k \in bs : \A j \in bs : k <= j)}
           ELSE IF eof THEN {Len(d)}
           ELSE IF t = <<>> THEN {0}
           ELSE IF t[Len(t)] = Err THEN {Bytes(us, Len(us))}
           ELSE IF Over(t, Partial(d, us)) THEN {0, Bytes(us, Len(us))}
           ELSE {0}
=============================================================================
