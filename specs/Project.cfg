SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS LogAgrees OnePerSlot InBranches HandlesLive
PROPERTIES Frame NoOverwrite SettingsKept
CHECK_DEADLOCK FALSE
