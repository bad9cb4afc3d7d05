CONSTANTS NIn = 2
 MaxTamper = 2
 Kinds = {"pkh", "wit", "multi"}
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Completeness Separate BodyFixed
