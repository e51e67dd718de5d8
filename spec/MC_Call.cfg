SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Given ReachA ReachB NotRead Reported Written Constant Skipped
