SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject SameWhenRead Apart Stream0 NeverFails
CHECK_DEADLOCK FALSE
