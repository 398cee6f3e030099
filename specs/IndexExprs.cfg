SPECIFICATION Spec
VIEW View
INVARIANT Within
INVARIANT Encloses
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Shapes = {}
  Exprs = {}
  MaxLen = 2
  Grids = {}
  Targets = {}
