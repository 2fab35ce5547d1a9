SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees OnlyComplete ExitMeansAll SameWhenRead Qualified
CHECK_DEADLOCK FALSE
