SPECIFICATION Spec
INVARIANT Consistent
INVARIANT Unique
CONSTANT Q = 2
