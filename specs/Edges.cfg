SPECIFICATION Spec
VIEW View
INVARIANT Symmetric
INVARIANT Single
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Nodes = {"x", "y", "z"}
  Weights = {99, 0, 1, 3}
  Depth = 3
