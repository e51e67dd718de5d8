SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Transparent Alike Lenient Renamed Same Settings Extra Stricter
