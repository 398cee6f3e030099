SPECIFICATION Spec
VIEW View
INVARIANT OneEach
INVARIANT NothingLost
PROPERTY OnlyAsked
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
  MaxNum = 4
  Bases = {}
