SPECIFICATION Spec
INVARIANTS Distinct Sound Certain Whole Emit
