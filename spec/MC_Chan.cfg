SPECIFICATION Spec
CONSTANT Ops = {1,2,3,4,5}
INVARIANTS NoDup OnlySent SendMeansReceived NotBoth ClosedReleases
CHECK_DEADLOCK FALSE
