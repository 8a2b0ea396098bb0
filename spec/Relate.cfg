SPECIFICATION Spec
INVARIANT TypeOK
CONSTANT Encs <- TEncs
CHECK_DEADLOCK FALSE
POSTCONDITION Report
