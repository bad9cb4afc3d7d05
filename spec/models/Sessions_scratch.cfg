SPECIFICATION Spec
CONSTANTS N = 2
          K = 1
          Overlap = TRUE
          Scratch = TRUE
          Clobber = FALSE
INVARIANTS Stateless
CHECK_DEADLOCK FALSE
