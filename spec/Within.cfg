SPECIFICATION Spec
INVARIANTS Sane Emit
