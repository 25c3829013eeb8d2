SPECIFICATION Spec
INVARIANT AddUp
INVARIANT NoTrace
INVARIANT EitherWay
CHECK_DEADLOCK FALSE
