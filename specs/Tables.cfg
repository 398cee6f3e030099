SPECIFICATION Spec
VIEW View
INVARIANT AllLaws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 4
  CVals = {0, 1}
