INIT Init
NEXT Next
INVARIANTS SmallLaws BigLaws
CHECK_DEADLOCK FALSE
