SPECIFICATION Spec
INVARIANTS Tiles Even InRange Emit
