SPECIFICATION Spec
CONSTANT Atomic = TRUE
INVARIANTS NeverTorn OldEntriesKept NoneLost LogFollowsDirs Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
