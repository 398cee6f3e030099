SPECIFICATION Spec
VIEW View
INVARIANT Faithful
INVARIANT Tight
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Starts = {}
  Kinds = {"points", "symbols", "coords"}
  Targets = {}
  Units = {"u0", "u1", "u2"}
  Exprs = {}
  Depth = 2
