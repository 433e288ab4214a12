------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* Segmentation property values: which exist, and what a packing of a      *)
(* (Grapheme_Cluster_Break or pictographic, Indic_Conjunct_Break) pair in  *)
(* one byte must satisfy.  Nothing is said about which numbers are used.   *)
(* MC_Props checks the nibble packing the code uses as an instance, and    *)
(* refutes overlapping ones.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
GCBNames  == {"CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend",
              "SpacingMark", "L", "V", "T", "LV", "LVT"}
PictNames == {"Extended_Pictographic"}
InCBNames == {"Consonant", "Extend", "Linker"}
NamesOf(kind) == CASE kind = "gcb" -> GCBNames [] kind = "pict" -> PictNames [] kind = "incb" -> InCBNames
Controls == {"CR", "LF", "Control"}
Breaks == GCBNames \cup PictNames \cup {"None"}
Conjuncts == InCBNames \cup {"None"}

\* A packing: Pack : Breaks x Conjuncts -> 0..255 with projections.
Faithful(pack, brkOf, conjOf, brkVal, conjVal, error) ==
  /\ \A b \in Breaks, j \in Conjuncts :
       /\ brkOf[pack[b, j]] = brkVal[b] /\ conjOf[pack[b, j]] = conjVal[j]
       /\ pack[b, j] # error
  /\ \A b, b2 \in Breaks, j, j2 \in Conjuncts : pack[b, j] = pack[b2, j2] => b = b2 /\ j = j2
=============================================================================
