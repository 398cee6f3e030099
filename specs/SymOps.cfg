SPECIFICATION Spec
VIEW View
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Syms = {"a", "b"}
  Regs = {"x", "y"}
  Literals = {"1", "a", "a/b", "3a", "(2b)^2"}
  Powers = {}
  Bound = 2
