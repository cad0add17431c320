CONSTANTS UKinds = {"n1", "n2", "n3", "n4", "mat"} BadU = {"bad"} GKinds = {"type", "group"} BadG = {"badg"} Depth = 4
SPECIFICATION Spec
INVARIANTS OnlyValid Emit
PROPERTIES Persistent KeepsOther
CHECK_DEADLOCK FALSE
