SPECIFICATION Spec
INVARIANTS Shape Range Emit
