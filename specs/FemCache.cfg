SPECIFICATION Spec
INVARIANTS RightFunction NoRebuild Once FailsAlone Free
PROPERTY Finishes
CHECK_DEADLOCK FALSE
