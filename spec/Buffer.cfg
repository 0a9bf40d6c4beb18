SPECIFICATION Spec
PROPERTY Grows
CHECK_DEADLOCK FALSE
