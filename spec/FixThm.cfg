SPECIFICATION Spec
INVARIANTS Anchors Length AddSin AddCos Rises Between Unit Lon TurnZ TurnY TurnX
