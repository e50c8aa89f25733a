SPECIFICATION Spec
INVARIANTS InPlane Emit
PROPERTY RoundTrip
