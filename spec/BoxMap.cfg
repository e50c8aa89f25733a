SPECIFICATION Spec
INVARIANTS Tiling InBox Bounds Inside1 Emit
