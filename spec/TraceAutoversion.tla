-------------------------- MODULE TraceAutoversion --------------------------
(***************************************************************************)
(* What the package's build constraints really select, and what the        *)
(* selected implementations really answer, against Autoversion.            *)
(*   select      one release on one platform: number of definitions of the *)
(*               scanner, advertised version (-1: none)                    *)
(*   toolchain   a real release: its own Unicode version, whether the      *)
(*               package builds, what it advertises                        *)
(*   unsupported a real build as if for a release: did it compile?         *)
(*   call        one call of the release's implementation and of the       *)
(*               versioned module, same arguments                          *)
(***************************************************************************)
EXTENDS Autoversion, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
tvars == <<release, i, bad>>
E == Trace[i]
TInit == i = 1 /\ bad = "" /\ release = 1
TSelect == /\ E.ev = "select"
           /\ bad' = IF RightSelection(E.release, E.defs, E.version) THEN "" ELSE "wrong selection for this release"
TTool == /\ E.ev = "toolchain"
         /\ bad' = IF UnicodeOf(E.release) # E.unicode THEN "HARNESS: fact about Go"
                   ELSE IF ~E.built THEN "no usable implementation"
                   ELSE IF E.version # E.unicode THEN "advertises another Unicode version" ELSE ""
TUnsup == /\ E.ev = "unsupported"
          /\ bad' = IF E.release \in Supported THEN "HARNESS: supported"
                    ELSE IF E.compiled THEN "an implementation for an unsupported release" ELSE ""
TCall == /\ E.ev = "call"
         /\ bad' = IF E.of # UnicodeOf(E.release) THEN "HARNESS: compared with another module"
                   ELSE IF E.got # E.want THEN "answer differs from the module's" ELSE ""
TNext == i <= Len(Trace) /\ bad = "" /\ release' = E.release /\ (TSelect \/ TTool \/ TUnsup \/ TCall) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Allowed == bad = ""
=============================================================================
