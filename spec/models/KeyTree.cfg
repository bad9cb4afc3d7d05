CONSTANTS Q = 5
 MaxDepth = 2
 MaxOps = 3
 Mixers = {1,2}
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS OneKeyPerPath NoEscalation DepthBound TextIdentity
