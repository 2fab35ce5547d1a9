------------------------------- MODULE Conf -------------------------------
(* Runs the scenarios of a file through the specification, one behaviour each, and prints the outcome of each. *)
EXTENDS Report, IOUtils, TLCExt

Scenarios == ndJsonDeserialize(IOEnv.SCENARIOS)

Init == \E i \in 1..Len(Scenarios) : Begin(Scenarios[i])

Spec == Init /\ [][InOrder \/ Tell(Outcome)]_vars
=============================================================================
