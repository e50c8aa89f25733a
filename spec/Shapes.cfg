SPECIFICATION Spec
INVARIANTS Closed Twelve Convex Emit
