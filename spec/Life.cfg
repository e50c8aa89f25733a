SPECIFICATION Spec
INVARIANTS Kept True Refusals Emit
