SPECIFICATION Spec
VIEW View
INVARIANT Agree
INVARIANT Ignored
INVARIANT Apart
INVARIANT Monotone
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 9
