SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Confluence NoEarly Completes ReadsAlike
PROPERTIES Monotone Harmless
CONSTRAINT Bound
