CONSTANTS NIn = 2
 MaxTamper = 3
 Kinds = {"pkh", "wit", "multi"}
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Completeness Separate BodyFixed
