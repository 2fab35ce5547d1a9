SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees ExitMeansAll SameWhenRead Frame Replaced MergedAll Deleted Stable
CHECK_DEADLOCK FALSE
