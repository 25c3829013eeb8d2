SPECIFICATION Spec
INVARIANTS Once Complete Stuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
