SPECIFICATION Spec
INVARIANTS TypeOK Balanced Intact
CHECK_DEADLOCK FALSE
