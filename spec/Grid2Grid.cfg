SPECIFICATION Spec
INVARIANTS Complete Bounded Conserved Emit
