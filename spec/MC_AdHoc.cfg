SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject SameWhenRead Apart Same Stdin0
CHECK_DEADLOCK FALSE
