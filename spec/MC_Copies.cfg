SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees OnlyComplete OnlyOnce ExitMeansAll SameWhenRead Independent
CHECK_DEADLOCK FALSE
