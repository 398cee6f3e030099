SPECIFICATION Spec
INVARIANTS Emit Agree
CHECK_DEADLOCK FALSE
