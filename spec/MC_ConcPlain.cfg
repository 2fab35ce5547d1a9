SPECIFICATION PlainSpec
INVARIANTS Trees OnlyComplete OnlyOnce ExitMeansAll NothingOnReject SameAsAlone Status Never
PROPERTY Ends
