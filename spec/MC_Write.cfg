SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip OnlyLess UnsetLaw NoneLaw HuskLaw KeepLaw Additive Shared NilLaw
