SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT Faithful
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 4
  Paths = {"a.nc", "b.nc", "c.dat"}
  Suffixed = {"a.nc", "b.nc"}
  Contents = {}
  ArrayNames = {}
  ScalarNames = {}
  AxisNames = {}
