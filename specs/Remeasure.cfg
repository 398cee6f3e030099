SPECIFICATION Spec
VIEW View
INVARIANT Shape
PROPERTY KeepsUnit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
  Lengths = {1, 2, 3}
  Units = {"m", "cm", "km"}
