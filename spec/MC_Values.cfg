SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject SameWhenRead Merged
CHECK_DEADLOCK FALSE
