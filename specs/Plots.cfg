SPECIFICATION Spec
VIEW View
INVARIANT Closed
INVARIANT Sound
INVARIANT Free
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
