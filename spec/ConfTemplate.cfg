SPECIFICATION Spec
VIEW Position
INVARIANTS LaterWins
CHECK_DEADLOCK FALSE
