SPECIFICATION Spec
INVARIANTS Same Straight Short Emit
CHECK_DEADLOCK FALSE
