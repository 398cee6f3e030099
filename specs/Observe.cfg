SPECIFICATION Spec
VIEW View
INVARIANT Bounded
INVARIANT Fixed
INVARIANT OnGrid
INVARIANT Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 1
