SPECIFICATION Spec
INVARIANTS AccumulatesSymmetrically CountsBothTriangles UpperOnce RowsAgree
CHECK_DEADLOCK FALSE
