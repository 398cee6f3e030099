SPECIFICATION Spec
INVARIANTS Emit TermWise Homomorphic
CHECK_DEADLOCK FALSE
