SPECIFICATION Spec
INVARIANT HInv
INVARIANT PInv
INVARIANT SInv
VIEW View
CHECK_DEADLOCK FALSE
