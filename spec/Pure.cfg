SPECIFICATION Spec
INVARIANTS Untouched Constant Same Emit
