SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Disjoint NonEmpty
PROPERTIES RefusedUnchanged Frame
CHECK_DEADLOCK FALSE
