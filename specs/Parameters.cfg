SPECIFICATION Spec
INVARIANT GivenWins
INVARIANT Local
INVARIANT Emit
CHECK_DEADLOCK FALSE
