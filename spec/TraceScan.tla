----------------------------- MODULE TraceScan -----------------------------
(***************************************************************************)
(* Is a recorded run of the real code a behaviour the specification        *)
(* allows?  The trace (ndjson, env TRACE) holds single calls ("call"       *)
(* outside a session) and whole sessions of bufio.Scanner over a scripted  *)
(* reader ("open", then "read" and "call" events, then "close"), which     *)
(* must be steps of Stream.tla.  PROP selects what is judged, so that a    *)
(* deviation is attributed to the property it breaks.                      *)
(***************************************************************************)
EXTENDS Ucd17, Stream, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
Class(cp) == UcdClass(cp)          \* substituted for ClassOf
ClassesOf(lo, hi) == UcdClassesIn(lo, hi)
AllInputs == {<<>>}

VARIABLES i, open, bad, prev
tvars == <<vars, i, open, bad, prev>>

TInit == Init /\ i = 1 /\ open = FALSE /\ bad = "" /\ prev = [input |-> <<-1>>, out |-> <<>>]
E == Trace[i]

\* Judgements on one call; "" when there is nothing to object to.
WellFormed(e) ==
  /\ ~e.err /\ e.adv >= 0 /\ e.adv <= Len(e.data)
  /\ e.hasTok <=> e.adv > 0
  /\ e.hasTok => e.tok = SubSeq(e.data, 1, e.adv)
Judge(e) ==
  LET len_ == HasLenient(e.data, e.eof) IN
  CASE Prop \in {"C01", "C02", "C09"} ->
         IF ~len_ /\ e.adv \notin Answers(e.data, e.eof) THEN "answer not allowed by the rules" ELSE ""
    [] Prop = "C03" ->
         IF ~WellFormed(e) THEN "ill-formed answer"
         ELSE IF e.eof /\ e.data # <<>> /\ e.adv = 0 THEN "no token at end of input" ELSE ""
    [] Prop = "C06" ->
         IF e.adv = 0 /\ (e.hasTok \/ e.err) THEN "token or error without advance"
         ELSE IF e.adv > 0 /\ ~e.eof /\ ~len_ /\ e.adv \notin Answers(e.data, FALSE)
         THEN "token reported before it is final" ELSE ""
    [] Prop = "C07" ->
         IF e.data = <<>> /\ (e.adv # 0 \/ e.hasTok \/ e.err) THEN "answer other than nothing for empty data"
         ELSE IF e.eof /\ e.data # <<>> /\ e.adv <= 0 THEN "no token at end of input"
         ELSE IF e.adv = 0 /\ ~len_ /\ 0 \notin Answers(e.data, e.eof)
         THEN "decided token withheld" ELSE ""
    [] OTHER -> ""

\* Judgements at the end of a session.
JudgeSession ==
  CASE Prop = "C03" -> IF phase # "done" THEN "session did not come to its end"
                       ELSE IF ~Lossless \/ st # Len(input) THEN "bytes lost" ELSE ""
    [] Prop = "C04" -> IF ~HasLenient(input, TRUE) /\ ~Isolated THEN "malformed byte not alone" ELSE ""
    [] Prop = "C05" -> IF prev.input = input /\ prev.out # out
                       THEN "tokens differ from those under another delivery" ELSE ""
    [] OTHER -> ""

TOpen  == /\ E.ev = "open" /\ input' = E.input /\ rd' = 0 /\ st' = 0 /\ eof' = FALSE
          /\ out' = <<>> /\ phase' = "read" /\ open' = TRUE /\ UNCHANGED <<bad, prev>>
TRead  == /\ E.ev = "read" /\ open
          /\ IF E.eof THEN ReadEOF(E.n) ELSE Read(E.n)
          /\ UNCHANGED <<open, bad, prev>>
TCall  == /\ E.ev = "call"
          /\ bad' = Judge(E)
          /\ IF open THEN E.data = Window /\ E.eof = eof /\ Consume(E.adv) ELSE UNCHANGED vars
          /\ UNCHANGED <<open, prev>>
TClose == /\ E.ev = "close" /\ open
          /\ bad' = JudgeSession /\ open' = FALSE
          /\ prev' = [input |-> input, out |-> out] /\ UNCHANGED vars

TNext == /\ i <= Len(Trace) /\ bad = ""
         /\ TOpen \/ TRead \/ TCall \/ TClose
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
