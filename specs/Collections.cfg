SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {"a", "b", "c", "d"}
  MaxLen = 4
  NearMax = 3
  TreeDepth = 2
  TreeWidth = 2
  BMax = 4
