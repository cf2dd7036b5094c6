SPECIFICATION Spec
INVARIANTS Emit Functional
CHECK_DEADLOCK FALSE
