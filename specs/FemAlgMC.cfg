SPECIFICATION Spec
INVARIANTS Inv Absorbs
CHECK_DEADLOCK FALSE
