---------------------------- MODULE GenPropTable ----------------------------
(***************************************************************************)
(* Behaviours of PropTable as test inputs for the real generator: TLC in   *)
(* simulation mode prints, for each finished behaviour, the insertions in  *)
(* order and the outcome.  The driver embeds the small paths into real     *)
(* UTF-8 (every lead and continuation value is mapped to one of the real   *)
(* ones of the same length), writes the data files and compares.           *)
(***************************************************************************)
EXTENDS PropTable, TLC, Json
LevelsMC == <<0, 0, 1, 2>>
VARIABLE log
GInit == Init /\ log = <<>>
Log(kind, p) == log' = Append(log, [kind |-> kind, path |-> p])
GNext == \/ /\ ops < MaxOps
            /\ \E p \in Paths : \/ SetBreak(p) /\ Log("brk", p)
                                \/ SetEmoji(p) /\ Log("emoji", p)
                                \/ OrConj(p) /\ Log("conj", p)
         \/ (ops >= MaxOps \/ ops > 2) /\ Finish /\ UNCHANGED log
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == phase \in {"done", "refused"} =>
  PrintT("BEHAVIOUR " \o ToJson([log |-> log, phase |-> phase,
     want |-> [p \in {q \in Paths : want[q] # 0} |-> want[p]]]))
=============================================================================
