SPECIFICATION Spec
CONSTANT Sides = {1, 2, 3, 4, 8}
INVARIANTS Back Around Plain AtCentre Wide AtCorners Sees
