SPECIFICATION Spec
INVARIANTS OnEdge Closed Emit
PROPERTY Clockwise
