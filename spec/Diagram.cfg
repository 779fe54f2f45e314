SPECIFICATION Spec
INVARIANTS LineOk Exact
CHECK_DEADLOCK FALSE
