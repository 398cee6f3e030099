SPECIFICATION Spec
VIEW View
INVARIANT IsOrderedSet
INVARIANT Orders
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b", "c"}
  Tags = {1, 2}
  MaxLen = 3
  Depth = 1
  Wild = {}
