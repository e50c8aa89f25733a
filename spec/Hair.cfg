SPECIFICATION Spec
INVARIANTS Same InTurn Emit
