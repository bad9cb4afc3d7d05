SPECIFICATION Spec
CONSTANTS N = 2
          K = 1
          Overlap = FALSE
          Scratch = FALSE
          Clobber = TRUE
INVARIANTS Kept
CHECK_DEADLOCK FALSE
