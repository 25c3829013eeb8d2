SPECIFICATION Spec
INVARIANT Confluent
VIEW View
CHECK_DEADLOCK FALSE
