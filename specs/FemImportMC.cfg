SPECIFICATION Spec
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
