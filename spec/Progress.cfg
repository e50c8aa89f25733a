SPECIFICATION Spec
INVARIANTS Sound Full SameThing Emit
PROPERTY Forward
