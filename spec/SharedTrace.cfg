SPECIFICATION Spec
INVARIANTS Followed Pure
CHECK_DEADLOCK FALSE
