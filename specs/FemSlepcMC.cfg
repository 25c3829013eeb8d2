SPECIFICATION Spec
INVARIANTS Isolated FaithfulPair CleanedUp DecoysStay OthersStay
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
