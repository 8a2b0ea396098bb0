SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Accounting Resume Renewed Discards Needed
CONSTANT Encs <- TEncs
CHECK_DEADLOCK FALSE
