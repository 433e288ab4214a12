---------------------------- MODULE TraceUcdFile ----------------------------
(***************************************************************************)
(* Recorded runs of the data file reader over whole files: "open" (the     *)
(* bytes of a file), "record" for every entry, "error" or "eof" at the     *)
(* end.  The file is cut into lines and each line read by the              *)
(* specification.  A line left open by UcdFile may yield anything or       *)
(* nothing, so the numbers of lines that may have been consumed so far are *)
(* tracked as a set.                                                       *)
(***************************************************************************)
EXTENDS UcdFile, TraceFile
Meaning(l) == UcdLine(l)
=============================================================================
