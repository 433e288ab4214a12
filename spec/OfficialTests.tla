--------------------------- MODULE OfficialTests ---------------------------
(***************************************************************************)
(* The rules against the Unicode Consortium's own samples (the pinned      *)
(* GraphemeBreakTest file of Unicode 17.0): each line is read by the       *)
(* specification's reader, classified by Ucd17, decoded by Utf8, and cut   *)
(* by UAX29; the clusters must be the line's.  This tests the              *)
(* specification, not the code.                                            *)
(***************************************************************************)
EXTENDS SplitFunc, Ucd17, TLC
R == INSTANCE TestFile
File == ndJsonDeserialize(IOEnv.LINES)
Class(cp) == UcdClass(cp)
ClassesOf(lo, hi) == UcdClassesIn(lo, hi)
ASSUME Sound(Classes)
VARIABLES l, samples, bad
ovars == <<l, samples, bad>>
OInit == l = 0 /\ samples = 0 /\ bad = ""
OLine == /\ l < Len(File) /\ bad = "" /\ l' = l + 1
         /\ LET m == R!TestLine(File[l + 1].line) IN
            CASE m.kind = "none" -> UNCHANGED <<samples, bad>>
              [] m.kind = "sample" ->
                   /\ samples' = samples + 1
                   /\ bad' = IF TokenLens(m.input) = [k \in 1..Len(m.segments) |-> Len(m.segments[k])]
                             THEN "" ELSE "other clusters"
              [] OTHER -> bad' = "unexpected line" /\ UNCHANGED samples
OSpec == OInit /\ [][OLine]_ovars
Conforms == /\ bad = ""
            /\ l = Len(File) => samples = 766
=============================================================================
