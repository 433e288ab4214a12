----------------------------- MODULE Autoversion -----------------------------
(***************************************************************************)
(* Selection of an implementation by the Go release (C13).  A program is   *)
(* built again with one Go release after another; for each, the build      *)
(* constraints select some of the package's files.  Ranges is the set of   *)
(* files that define the scanner: [from, before, version] for the releases *)
(* go1.from up to, not including, go1.before.                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Ranges, MaxRelease
\* Facts about Go: the Unicode version of each supported release's own
\* unicode package. (0: not supported.)
Supported == 21..27
UnicodeOf(r) == IF r \notin Supported THEN 0 ELSE IF r <= 26 THEN 15 ELSE 17

\* The property: what a selection (set of implementations' versions) must be.
RightSelection(r, defs, version) ==
  IF r \in Supported THEN defs = 1 /\ version = UnicodeOf(r) ELSE defs = 0

VARIABLE release
Init == release \in 1..MaxRelease
Next == release' \in 1..MaxRelease
Spec == Init /\ [][Next]_release
Selected == {f \in Ranges : release >= f.from /\ release < f.before}
Version == IF Cardinality(Selected) = 1 THEN (CHOOSE f \in Selected : TRUE).version ELSE 0
Right == RightSelection(release, Cardinality(Selected), Version)
=============================================================================
