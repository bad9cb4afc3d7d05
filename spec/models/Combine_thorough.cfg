SPECIFICATION Spec
CONSTANTS MaxIn = 3
          MaxCuts = 3
          EmitCuts = 2
INVARIANTS Sound Bound NoAltered Complete
CHECK_DEADLOCK FALSE
