SPECIFICATION Spec
VIEW View
INVARIANT Sound
INVARIANT Current
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 2
