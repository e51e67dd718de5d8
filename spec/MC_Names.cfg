SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rejects Names1 ReadsOwn Other Flattened Renamed
