SPECIFICATION Spec
VIEW Position
INVARIANTS EndTrees ExitMeansAll SameWhenRead Selects InDocumentOrder Nowhere
CHECK_DEADLOCK FALSE
