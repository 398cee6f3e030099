SPECIFICATION Spec
VIEW View
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Syms = {"a", "b"}
  Tokens = {"a", "b"}
  MaxLen = 4
