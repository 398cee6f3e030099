SPECIFICATION Spec
CONSTANTS
  Keys = {"k1", "k2"}
  Fields = {"f", "g"}
  Vals = {1, 2}
  Dirs = {"d1", "d2"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
