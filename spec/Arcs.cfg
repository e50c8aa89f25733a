SPECIFICATION Spec
INVARIANTS Kept Reaches Emit
