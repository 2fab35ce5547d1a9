SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees ExitMeansAll SameWhenRead Understood Styled Kept
CHECK_DEADLOCK FALSE
