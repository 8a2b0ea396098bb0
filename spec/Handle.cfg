SPECIFICATION Spec
INVARIANTS TypeOK Accounting Resume Renewed Discards Needed
CONSTANT Encs <- TEncs
CHECK_DEADLOCK FALSE
