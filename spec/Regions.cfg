SPECIFICATION Spec
INVARIANTS Equal Nested Emit
