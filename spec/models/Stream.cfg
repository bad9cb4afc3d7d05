CONSTANTS B = 4
 Sizes = {0, 1, 2, 3, 4, 5, 7, 9}
 MaxOps = 3
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS Right Bounded Emits
