SPECIFICATION Spec
VIEW Position
INVARIANTS Trees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject SameWhenRead Precedence Effect Refusal TheFile
CHECK_DEADLOCK FALSE
