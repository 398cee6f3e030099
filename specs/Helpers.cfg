SPECIFICATION Spec
VIEW View
INVARIANT Self
INVARIANT Unknown
INVARIANT Some
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxReg = 2
  MaxMade = 7
