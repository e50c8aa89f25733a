SPECIFICATION Spec
INVARIANTS Tiling Mean Emit
