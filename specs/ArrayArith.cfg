SPECIFICATION Spec
VIEW View
INVARIANT Covers
INVARIANT Symmetric
INVARIANT Diagonal
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  LeftDims = {}
  RightDims = {}
  Choices = {}
  Classes = {"product", "sum"}
  Depth = 1
