SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AsText Silent Alike Joined2
