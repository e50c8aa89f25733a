SPECIFICATION Spec
INVARIANTS Frame Rigid Reaches AxisFixed Emit
