SPECIFICATION Spec
INVARIANT NeverTwice
CHECK_DEADLOCK FALSE
