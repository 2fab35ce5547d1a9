SPECIFICATION Spec
INVARIANTS Trees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject SameAsAlone Status Never
CHECK_DEADLOCK FALSE
