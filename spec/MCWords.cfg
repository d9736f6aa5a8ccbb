SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
