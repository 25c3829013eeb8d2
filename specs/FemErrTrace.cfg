SPECIFICATION Spec
VIEW OnlyPosition
CHECK_DEADLOCK FALSE
CONSTANT CheckEvent <- ErrEvent
