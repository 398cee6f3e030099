SPECIFICATION Spec
CONSTANT Keys = {"a", "b", "c", "d"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
