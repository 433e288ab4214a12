----------------------------- MODULE UAX29Rules -----------------------------
(***************************************************************************)
(* The extended grapheme cluster boundary rules of UAX #29 (Unicode 17),   *)
(* written declaratively: each rule is a predicate on a whole text s (a    *)
(* sequence of units) and a position i, looking at the text exactly as the *)
(* regular expressions of the rules do.  Nothing here mentions a machine.  *)
(*                                                                         *)
(* A unit is either the segmentation class of a character, or Err: one     *)
(* byte that is not part of a structurally complete UTF-8 sequence.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* The inhabited combinations of (Grapheme_Cluster_Break or Extended_      *)
(* Pictographic) and Indic_Conjunct_Break in Unicode 17.  "Extend" has     *)
(* InCB=Extend, "ExtendX" (U+200C) has InCB=None, "Linker" has GCB=Extend. *)
Classes == {"CR", "LF", "Control", "Extend", "ExtendX", "Linker", "ZWJ", "RI",
            "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "ExtPict",
            "Consonant", "Other"}
Err   == "Err"
Units == Classes \cup {Err}

GCB(c)  == CASE c \in {"Extend", "ExtendX", "Linker"} -> "Extend"
             [] c \in {"Consonant", "Other"}          -> "None"
             [] OTHER                                 -> c
InCB(c) == CASE c \in {"Extend", "ZWJ"} -> "Extend"
             [] c = "Linker"            -> "Linker"
             [] c = "Consonant"         -> "Consonant"
             [] OTHER                   -> "None"

AnyControl(c) == GCB(c) \in {"CR", "LF", "Control"}

---------------------------------------------------------------------------
(* Left contexts: "the text ending at position i matches ..."              *)

\* ( ^ | [^RI] ) (RI RI)* RI $
OddRI(s, i) ==
  \E k \in 1..i : /\ \A j \in k..i : GCB(s[j]) = "RI"
                  /\ k = 1 \/ GCB(s[k-1]) # "RI"
                  /\ (i - k) % 2 = 0

\* ExtPict Extend* $
PictExt(s, i) ==
  \E k \in 1..i : /\ GCB(s[k]) = "ExtPict"
                  /\ \A j \in (k+1)..i : GCB(s[j]) = "Extend"

\* ExtPict Extend* ZWJ $
PictZWJ(s, i) == i >= 1 /\ GCB(s[i]) = "ZWJ" /\ PictExt(s, i - 1)

\* Consonant [Extend Linker]* $
Conj(s, i) ==
  \E k \in 1..i : /\ InCB(s[k]) = "Consonant"
                  /\ \A j \in (k+1)..i : InCB(s[j]) \in {"Extend", "Linker"}

\* Consonant [Extend Linker]* Linker [Extend Linker]* $
ConjLinked(s, i) ==
  \E k \in 1..i : /\ InCB(s[k]) = "Consonant"
                  /\ \A j \in (k+1)..i : InCB(s[j]) \in {"Extend", "Linker"}
                  /\ \E j \in (k+1)..i : InCB(s[j]) = "Linker"

---------------------------------------------------------------------------
(* The rules, between s[i] and s[i+1], 1 <= i < Len(s).                    *)
GB3(s, i)   == GCB(s[i]) = "CR" /\ GCB(s[i+1]) = "LF"
GB4(s, i)   == AnyControl(s[i])
GB5(s, i)   == AnyControl(s[i+1])
GBErr(s, i) == s[i] = Err \/ s[i+1] = Err
GB6(s, i)   == GCB(s[i]) = "L" /\ GCB(s[i+1]) \in {"L", "V", "LV", "LVT"}
GB7(s, i)   == GCB(s[i]) \in {"LV", "V"} /\ GCB(s[i+1]) \in {"V", "T"}
GB8(s, i)   == GCB(s[i]) \in {"LVT", "T"} /\ GCB(s[i+1]) = "T"
GB9(s, i)   == GCB(s[i+1]) \in {"Extend", "ZWJ"}
GB9a(s, i)  == GCB(s[i+1]) = "SpacingMark"
GB9b(s, i)  == GCB(s[i]) = "Prepend"
GB9c(s, i)  == InCB(s[i+1]) = "Consonant" /\ ConjLinked(s, i)
GB11(s, i)  == GCB(s[i+1]) = "ExtPict" /\ PictZWJ(s, i)
GB12_13(s, i) == GCB(s[i+1]) = "RI" /\ OddRI(s, i)

\* The first rule that applies decides.
Decider(s, i) ==
  CASE i = 0      -> "GB1"
    [] i = Len(s) -> "GB2"
    [] OTHER ->
       IF      GB3(s, i)     THEN "GB3"
       ELSE IF GB4(s, i)     THEN "GB4"
       ELSE IF GB5(s, i)     THEN "GB5"
       ELSE IF GBErr(s, i)   THEN "GBErr"
       ELSE IF GB6(s, i)     THEN "GB6"
       ELSE IF GB7(s, i)     THEN "GB7"
       ELSE IF GB8(s, i)     THEN "GB8"
       ELSE IF GB9(s, i)     THEN "GB9"
       ELSE IF GB9a(s, i)    THEN "GB9a"
       ELSE IF GB9b(s, i)    THEN "GB9b"
       ELSE IF GB9c(s, i)    THEN "GB9c"
       ELSE IF GB11(s, i)    THEN "GB11"
       ELSE IF GB12_13(s, i) THEN "GB12_13"
       ELSE "GB999"

Breaking == {"GB1", "GB2", "GB4", "GB5", "GBErr", "GB999"}

(* TRUE iff there is a grapheme cluster boundary after the i-th unit of s. *)
Boundary(s, i) == Decider(s, i) \in Breaking

\* The boundary after the first cluster of s (0 for the empty text).
FirstCluster(s) ==
  IF s = <<>> THEN 0
  ELSE CHOOSE i \in 1..Len(s) : Boundary(s, i) /\ \A j \in 1..(i-1) : ~Boundary(s, j)
=============================================================================
