SPECIFICATION Spec
INVARIANTS Definition Between Emit
