SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SameElement AllTaken Errors Written Back
