SPECIFICATION Spec
INVARIANTS Tiling Nested InBox Bounds Inside1 Emit
