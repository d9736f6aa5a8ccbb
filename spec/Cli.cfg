SPECIFICATION Spec
INVARIANTS OnlyAsked FaultyKept StoppedKept AllDone FailsSilently Codes
CHECK_DEADLOCK FALSE
