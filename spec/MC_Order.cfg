SPECIFICATION Spec
VIEW Position
INVARIANTS Trees OnlyComplete OnlyOnce ExitMeansAll Order Once Apart
CHECK_DEADLOCK FALSE
