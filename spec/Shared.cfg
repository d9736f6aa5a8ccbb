SPECIFICATION Spec
VIEW view
INVARIANT Once
CHECK_DEADLOCK FALSE
