SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Faithful Commute Identity
CHECK_DEADLOCK FALSE
CONSTANTS
  Start = 0
  Lengths = 0
  Place = 0
  Units = 0
  Foreign = 0
  Exprs = 0
  Templates = 0
  Depth = 0
