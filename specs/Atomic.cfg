SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Which = 0
  Offsets = 0
  Charges = 0
  MaxLen = 0
  Strays = 0
