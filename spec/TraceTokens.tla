----------------------------- MODULE TraceTokens -----------------------------
(***************************************************************************)
(* Recorded uses of the token utilities, and single calls of the UTF-8     *)
(* sequence splitter.                                                      *)
(*   open   {kind "all"|"count", len}      split {off, match, n, eof, adv, *)
(*   hasTok, tok, err, final}              result {tokens|count, err}      *)
(*   utf8   {data, eof, adv, hasTok, tok, err}                             *)
(* A split event says where in the buffer the presented bytes lie (off,    *)
(* and whether they match it).                                             *)
(***************************************************************************)
EXTENDS Utf8Strict, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, toks, err, over, kind, size, bad
tvars == <<i, st, toks, err, over, kind, size, bad>>
E == Trace[i]
TInit == i = 1 /\ st = 0 /\ toks = <<>> /\ err = FALSE /\ over = TRUE /\ kind = "" /\ size = 0 /\ bad = ""
TOpen == /\ E.ev = "open" /\ st' = 0 /\ toks' = <<>> /\ err' = FALSE /\ over' = FALSE
         /\ kind' = E.kind /\ size' = E.len /\ UNCHANGED bad
TSplit == /\ E.ev = "split"
          /\ LET illegal == E.adv < 0 \/ E.adv > E.n
                 stop == (E.err /\ ~E.final) \/ (~E.err /\ illegal) IN
             /\ bad' = IF over THEN "split function called after the end"
                       ELSE IF ~E.match \/ E.off # st THEN "split function presented with other bytes"
                       ELSE IF E.eof /\ st + E.n # size THEN "end of input announced too early" ELSE ""
             /\ err' = (err \/ stop) /\ over' = (E.err \/ illegal)
             /\ st' = IF E.err \/ illegal THEN st ELSE st + E.adv
             /\ toks' = IF ~stop /\ E.hasTok THEN Append(toks, E.tok) ELSE toks
          /\ UNCHANGED <<kind, size>>
TResult == /\ E.ev = "result"
           /\ bad' = IF err THEN IF E.err THEN "" ELSE "error of the split function not reported"
                     ELSE IF E.err THEN "error without cause"
                     ELSE IF kind = "all" /\ E.tokens # toks THEN "tokens differ from those recognized"
                     ELSE IF kind = "count" /\ E.count # Len(toks) THEN "count differs from the number of tokens"
                     ELSE ""
           /\ over' = TRUE /\ UNCHANGED <<st, toks, err, kind, size>>
TUtf8 == /\ E.ev = "utf8"
         /\ LET a == Answer(E.data, E.eof) IN
            bad' = IF E.err THEN "error"
                   ELSE IF E.adv # a THEN IF E.adv = 0 THEN "waits for input it does not need" ELSE "wrong sequence"
                   ELSE IF E.hasTok # (a > 0) \/ (E.hasTok /\ E.tok # SubSeq(E.data, 1, a)) THEN "wrong token" ELSE ""
         /\ UNCHANGED <<st, toks, err, over, kind, size>>
TNext == i <= Len(Trace) /\ bad = "" /\ (TOpen \/ TSplit \/ TResult \/ TUtf8) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
