SPECIFICATION Spec
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
