SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY Grows StopsAtFailure
CHECK_DEADLOCK FALSE
