CONSTANTS Nets = {"A", "B"}
 Digit = {0,1,2,3,4}
 MaxOps = 1
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS RoundTrip OnlyCanonical NoAlienNet DetectsOne
