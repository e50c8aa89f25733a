SPECIFICATION Spec
INVARIANTS Tiles Invertible EqualArea Emit
