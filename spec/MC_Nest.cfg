SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Placed Once Reports InOrder Single Earlier
