SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OneLaw NoneLaw ManyLaw ClassLaw OrderLaw
