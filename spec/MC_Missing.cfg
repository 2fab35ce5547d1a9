SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees OnlyComplete ExitMeansAll SameWhenRead Ignored Injected Rest
CHECK_DEADLOCK FALSE
