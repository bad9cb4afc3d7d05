CONSTANTS Wide = 3
 MaxIn = 2
 MaxOut = 2
 MaxScript = 1
 MaxItems = 1
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS Exact Returned InText Emits
