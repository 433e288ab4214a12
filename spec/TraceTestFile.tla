---------------------------- MODULE TraceTestFile ----------------------------
(* As TraceUcdFile, for the segmentation test file format. *)
EXTENDS TestFile, TraceFile
Meaning(l) == TestLine(l)
=============================================================================
