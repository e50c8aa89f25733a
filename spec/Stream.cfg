SPECIFICATION Spec
INVARIANTS Placed Emit
PROPERTY Forward
