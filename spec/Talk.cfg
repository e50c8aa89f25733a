SPECIFICATION Spec
INVARIANTS Closed Grows Silent Emit
