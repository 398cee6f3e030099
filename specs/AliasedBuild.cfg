SPECIFICATION Spec
INVARIANTS AllDisjoint MergeLaws Emit
CHECK_DEADLOCK FALSE
