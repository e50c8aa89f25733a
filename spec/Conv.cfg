SPECIFICATION Spec
INVARIANTS UnitAngles Emit
PROPERTY RoundTrip
