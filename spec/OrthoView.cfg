SPECIFICATION Spec
INVARIANTS Rigid Home Depth Middle Pole Emit
