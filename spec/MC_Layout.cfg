SPECIFICATION Spec
VIEW Position
INVARIANTS Trees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject Apart Taken EachOnce InTheirOrder Where0
CHECK_DEADLOCK FALSE
