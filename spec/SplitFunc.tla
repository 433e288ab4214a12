----------------------------- MODULE SplitFunc -----------------------------
(* The split function of SplitRules, applied to whole byte strings.          *)
EXTENDS UAX29, Utf8, SplitRules

Text(d, eof) == Classified(UnitsOf(d, eof), d)
SplitAnswers(d, eof) == AnswersFor(UnitsOf(d, eof), d, eof)

\* The tokens of a whole input, as byte lengths.
TokenLens(d) ==
  LET us == UnitsOf(d, TRUE)
      t  == Classified(us, d)
      RECURSIVE F(_, _)
      F(k, acc) == IF k > Len(t) THEN <<>>
                   ELSE IF Boundary(t, k) THEN <<acc + us[k].len>> \o F(k + 1, 0)
                   ELSE F(k + 1, acc + us[k].len)
  IN F(1, 0)

\* Does d contain a sequence whose handling the documentation leaves open?
HasLenient(d, eof) ==
  LET us == UnitsOf(d, eof) IN
  \E k \in 1..Len(us) : us[k].kind = "char" /\ Lenient(CodePoint(d, us[k].at, us[k].len), us[k].len)
=============================================================================
