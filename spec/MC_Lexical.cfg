SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Alike Solid Mirror Width Joint
