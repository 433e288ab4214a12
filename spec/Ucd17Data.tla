----------------------------- MODULE Ucd17Data -----------------------------
(***************************************************************************)
(* The pinned segmentation classes (Ucd17) are what the Unicode data files *)
(* say, read by this specification's own reader (UcdFile): every character *)
(* that an entry assigns a value has a class with that value, and as many  *)
(* characters are assigned one as have such a class.                       *)
(***************************************************************************)
EXTENDS UcdFile, UAX29Rules, Ucd17, TLC
File  == ndJsonDeserialize(IOEnv.LINES)     \* [line |-> bytes]
Names == JsonDeserialize(IOEnv.NAMES)       \* ASCII spelling of value names
Kind  == IOEnv.KIND                         \* which file this is
VARIABLES l, n, bad     \* lines read, characters assigned a value
dvars == <<l, n, bad>>
Property(c) == CASE Kind = "gcb"  -> IF GCB(c) = "ExtPict" THEN "None" ELSE GCB(c)
                 [] Kind = "pict" -> IF GCB(c) = "ExtPict" THEN "ExtPict" ELSE "None"
                 [] Kind = "conj" -> InCB(c)
\* The value that an entry assigns, "None" if it is about something else.
ValueOf(fs) ==
  CASE Kind = "gcb"  -> CHOOSE v \in DOMAIN Names : Names[v] = fs[1]
    [] Kind = "pict" -> IF fs[1] = Names["ExtPict"] THEN "ExtPict" ELSE "None"
    [] Kind = "conj" -> IF fs[1] = Names["InCB"] THEN CHOOSE v \in DOMAIN Names : Names[v] = fs[2] ELSE "None"
Total == LET S == {k \in DOMAIN Ranges : Property(Ranges[k][3]) # "None"}
             RECURSIVE Sum(_)
             Sum(k) == IF k = 0 THEN 0 ELSE (IF k \in S THEN Ranges[k][2] - Ranges[k][1] + 1 ELSE 0) + Sum(k - 1)
         IN Sum(Len(Ranges))
DInit == l = 0 /\ n = 0 /\ bad = ""
DLine == /\ l < Len(File) /\ bad = "" /\ l' = l + 1
         /\ LET m == UcdLine(File[l + 1].line) IN
            IF m.kind = "none" THEN UNCHANGED <<n, bad>>
            ELSE IF m.kind # "entry" THEN bad' = "unexpected line" /\ UNCHANGED n
            ELSE LET v == ValueOf(m.fields) IN
                 IF v = "None" THEN UNCHANGED <<n, bad>>
                 ELSE /\ n' = n + m.last - m.start + 1
                      /\ bad' = IF \A c \in UcdClassesIn(m.start, m.last) : Property(c) = v THEN "" ELSE "another class"
DSpec == DInit /\ [][DLine]_dvars
Agrees == /\ bad = ""
          /\ l = Len(File) => n = Total
=============================================================================
