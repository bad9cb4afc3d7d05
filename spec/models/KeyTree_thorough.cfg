CONSTANTS Q = 5
 MaxDepth = 3
 MaxOps = 4
 Mixers = {1,2,3,4}
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS OneKeyPerPath NoEscalation DepthBound TextIdentity
