---------------------------- MODULE BundledFile ----------------------------
(***************************************************************************)
(* A whole file of the repository, line by line, beside what the code's    *)
(* reader got from it: the entries are the meanings of its data lines, in  *)
(* order, and nothing else.                                                *)
(***************************************************************************)
EXTENDS LineUtil, Json, IOUtils, TLC
CONSTANT MeaningOf(_)
File    == ndJsonDeserialize(IOEnv.LINES)     \* [line |-> bytes]
Records == ndJsonDeserialize(IOEnv.TRACE)     \* record ..., then eof or error
VARIABLES l, r, bad     \* lines and records that have been compared
fvars == <<l, r, bad>>
FInit == l = 0 /\ r = 0 /\ bad = ""
Next_ == Records[r + 1]
FLine == /\ l < Len(File)
         /\ l' = l + 1
         /\ LET m == MeaningOf(File[l + 1].line) IN
            CASE m.kind = "none" -> UNCHANGED <<r, bad>>
              [] m.kind \in {"entry", "sample"} ->
                   /\ r' = r + 1
                   /\ bad' = IF Next_.ev = "record" /\ Next_.rec = m THEN "" ELSE "the next entry is not what the file's next data line says"
              [] OTHER -> bad' = "HARNESS: unexpected line" /\ UNCHANGED r
FEnd  == /\ l = Len(File) /\ r < Len(Records)
         /\ r' = r + 1 /\ UNCHANGED l
         /\ bad' = IF Next_.ev = "eof" /\ r' = Len(Records) THEN "" ELSE "no end of file after the last data line"
FNext == bad = "" /\ (FLine \/ FEnd)
FSpec == FInit /\ [][FNext]_fvars
Allowed == bad = ""
Finished == <>(l = Len(File) /\ r = Len(Records))
=============================================================================
