SPECIFICATION Spec
INVARIANTS Precise Emit
