SPECIFICATION Spec
INVARIANT OnePlace
INVARIANT Alone
INVARIANT Together
INVARIANT Fair
VIEW View
CHECK_DEADLOCK FALSE
