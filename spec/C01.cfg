SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT MachineOK
INVARIANT EveryCallAnswered
INVARIANT NumbersAsExpected
INVARIANT RowsNumbered
PROPERTY NumbersNeverFall
