SPECIFICATION Spec
CONSTANTS MaxIn = 3
          MaxCuts = 2
          EmitCuts = 1
INVARIANTS Sound Bound NoAltered Complete
CHECK_DEADLOCK FALSE
