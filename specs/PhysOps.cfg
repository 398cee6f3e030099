SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Pool = {}
  Starts = {}
  Binary = {}
  Unary = {}
  Depth = 1
