SPECIFICATION Spec
INVARIANT TangentiallyContinuous
INVARIANT Minimal
INVARIANT MissesNothing
VIEW View
CHECK_DEADLOCK FALSE
