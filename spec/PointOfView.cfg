SPECIFICATION Spec
INVARIANTS Angles Rigid Home Centred Emit
CHECK_DEADLOCK FALSE
