SPECIFICATION Spec
INVARIANT Declared
CHECK_DEADLOCK FALSE
