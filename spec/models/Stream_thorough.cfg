CONSTANTS B = 4
 Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13}
 MaxOps = 4
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS Right Bounded Emits
