SPECIFICATION Spec
INVARIANTS Numbering Last Stars Centre Emit
