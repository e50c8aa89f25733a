SPECIFICATION Spec
INVARIANTS Corner4 Count Mutual Emit
