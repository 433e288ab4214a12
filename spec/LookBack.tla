------------------------------ MODULE LookBack ------------------------------
(* The look-back monitors of Monitors, run over a whole text.               *)
EXTENDS UAX29, Monitors

RECURSIVE MonitorOf(_)
MonitorOf(s) == IF s = <<>> THEN SOT
                ELSE Advance(MonitorOf(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
=============================================================================
