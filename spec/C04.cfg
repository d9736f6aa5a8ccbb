SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT MachineOK
INVARIANT EveryCallAnswered
INVARIANT LifetimesAsExpected
