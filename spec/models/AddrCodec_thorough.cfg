CONSTANTS Nets = {"A", "B", "C"}
 Digit = {0,1,2,3,4}
 MaxOps = 2
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS RoundTrip OnlyCanonical NoAlienNet DetectsOne
