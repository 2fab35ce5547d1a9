SPECIFICATION Spec
VIEW Position
INVARIANTS Trees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject SameWhenRead Apart
CHECK_DEADLOCK FALSE
