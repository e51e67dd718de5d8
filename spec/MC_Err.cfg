SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exactly Either Read
