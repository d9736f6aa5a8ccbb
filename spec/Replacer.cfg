SPECIFICATION Spec
INVARIANTS ReadsWell NothingLost Delimited
CHECK_DEADLOCK FALSE
