SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Values Errors Same Others NoPart Built
