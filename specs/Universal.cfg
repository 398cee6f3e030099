SPECIFICATION Spec
INVARIANTS Emit Homogeneous OneQuantity
CHECK_DEADLOCK FALSE
