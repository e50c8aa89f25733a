SPECIFICATION Spec
INVARIANTS Numbering Agrees Emit
