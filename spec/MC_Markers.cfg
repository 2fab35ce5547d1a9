SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees ExitMeansAll SameWhenRead Marked
CHECK_DEADLOCK FALSE
