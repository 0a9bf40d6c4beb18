SPECIFICATION Spec
CONSTANTS Procs = {p1, p2, p3}  Size = 1  MaxStates = 4  KeepMark = TRUE
INVARIANT OneHolder NotInBag
PROPERTY CleanWhenTaken Returns
CHECK_DEADLOCK FALSE
