SPECIFICATION Spec
VIEW View
INVARIANT OneHolder
CHECK_DEADLOCK FALSE
