SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Read Refused Where Sibling NoneLeft Written Back
