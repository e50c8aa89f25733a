SPECIFICATION Spec
INVARIANTS Additive Positive Emit
