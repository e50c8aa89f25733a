SPECIFICATION Spec
INVARIANTS Found Inside1 Bounds Emit
