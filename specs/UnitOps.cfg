SPECIFICATION Spec
INVARIANTS Emit Mechanical
CHECK_DEADLOCK FALSE
