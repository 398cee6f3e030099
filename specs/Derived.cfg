SPECIFICATION Spec
VIEW View
INVARIANT Bounded
INVARIANT Fixed
INVARIANT OnGrid
INVARIANT Shape
ACTION_CONSTRAINT Where
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 1
