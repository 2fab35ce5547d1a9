SPECIFICATION Spec
VIEW Position
INVARIANTS Trees OnlyComplete ExitMeansAll NothingOnReject SameWhenRead Understood0 EmptyIsNone
CHECK_DEADLOCK FALSE
