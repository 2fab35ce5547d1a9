SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees OnlyComplete ExitMeansAll SameWhenRead Combined Symmetric Ends
CHECK_DEADLOCK FALSE
