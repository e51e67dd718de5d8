SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnceEach InOrder StrictLaw OrderedLaw UnorderedLaw InPlace Reports Looser
