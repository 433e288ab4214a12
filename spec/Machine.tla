------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The boundary state machine as it is implemented                         *)
(* (textseg/internal/machine/state.go), state for state and branch for     *)
(* branch: Begin, nextState, Transition.                                   *)
(*                                                                         *)
(* Variant selects deliberate deviations used as negative controls:        *)
(*   "code"   the code as it is now                                        *)
(*   "orig"   the code before the fix "begin an emoji flag after any       *)
(*            machine state"                                               *)
(***************************************************************************)
EXTENDS UAX29Rules
CONSTANT Variant

States == {"Base", "AwaitEmojiFlag", "GB11BeforeZWJ", "GB11AfterZWJ",
           "GB9cConsonant", "GB9cLinker"}

NextState(st, c) ==
  IF GCB(c) = "ExtPict" THEN "GB11BeforeZWJ"
  ELSE IF InCB(c) = "Consonant" THEN "GB9cConsonant"
  ELSE IF /\ GCB(c) = "RI"
          /\ IF Variant = "orig" THEN st = "Base" ELSE st # "AwaitEmojiFlag"
       THEN "AwaitEmojiFlag"
  ELSE CASE st \in {"Base", "AwaitEmojiFlag", "GB11AfterZWJ"} -> "Base"
         [] st = "GB11BeforeZWJ" -> CASE GCB(c) = "ZWJ"    -> "GB11AfterZWJ"
                                      [] GCB(c) = "Extend" -> "GB11BeforeZWJ"
                                      [] OTHER             -> "Base"
         [] st = "GB9cConsonant" -> CASE InCB(c) = "Linker" -> "GB9cLinker"
                                      [] InCB(c) = "Extend" -> "GB9cConsonant"
                                      [] OTHER              -> "Base"
         [] st = "GB9cLinker"    -> IF InCB(c) \in {"Linker", "Extend"}
                                    THEN "GB9cLinker" ELSE "Base"

Begin(c) == NextState("Base", c)

\* Does the machine, in state st after prev, split before next?
Split(st, prev, next) ==
  LET p == GCB(prev) n == GCB(next) IN
  IF p = "CR" /\ n = "LF" THEN FALSE
  ELSE IF AnyControl(prev) \/ AnyControl(next) THEN TRUE
  ELSE IF p = "L" /\ n \in {"L", "V", "LV", "LVT"} THEN FALSE
  ELSE IF p \in {"LV", "V"} /\ n \in {"V", "T"} THEN FALSE
  ELSE IF p \in {"LVT", "T"} /\ n = "T" THEN FALSE
  ELSE IF n \in {"Extend", "ZWJ"} THEN FALSE
  ELSE IF n = "SpacingMark" THEN FALSE
  ELSE IF p = "Prepend" THEN FALSE
  ELSE IF /\ st = "GB9cLinker"
          /\ InCB(prev) \in {"Linker", "Extend"} /\ InCB(next) = "Consonant" THEN FALSE
  ELSE IF st = "GB11AfterZWJ" /\ p = "ZWJ" /\ n = "ExtPict" THEN FALSE
  ELSE IF st = "AwaitEmojiFlag" /\ p = "RI" /\ n = "RI" THEN FALSE
  ELSE TRUE
=============================================================================
