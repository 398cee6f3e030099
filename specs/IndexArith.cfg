SPECIFICATION Spec
VIEW View
INVARIANT Division
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Numbers = {-2, 0, 1, 3}
  Operands = {}
  Starts = {}
  Depth = 1
  Bound = 200
