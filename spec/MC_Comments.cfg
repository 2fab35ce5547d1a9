SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees ExitMeansAll SameWhenRead AllThere SameData0
CHECK_DEADLOCK FALSE
