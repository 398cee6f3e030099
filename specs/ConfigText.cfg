SPECIFICATION Spec
INVARIANT Swapped
INVARIANT Same
INVARIANT SilentLines
INVARIANT Emit
CHECK_DEADLOCK FALSE
