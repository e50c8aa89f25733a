SPECIFICATION Spec
INVARIANTS Composes Emit
PROPERTY MassKept
