SPECIFICATION Spec
INVARIANTS Complete OnGrid ReadBack Floor Emit
