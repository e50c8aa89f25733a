SPECIFICATION Spec
INVARIANTS Rising Ends Centres Unit Emit
