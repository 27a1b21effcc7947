SPECIFICATION Spec
INVARIANT Out
