SPECIFICATION Spec
INVARIANTS OrderFree OneEach
CHECK_DEADLOCK FALSE
