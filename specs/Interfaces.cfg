SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT Agree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Systems = {"mks", "cgs"}
  Kinds = {"dist", "flux"}
  Depth = 4
