SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK OneByOne LastRunning TurnBack Fundamental
CHECK_DEADLOCK FALSE
CONSTANTS
  Starts = 0
  Depth = 0
