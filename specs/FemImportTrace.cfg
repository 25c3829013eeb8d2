SPECIFICATION ImportSpec
VIEW OnlyPosition
CHECK_DEADLOCK FALSE
