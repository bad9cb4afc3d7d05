SPECIFICATION Spec
CONSTANTS N = 3
          K = 2
          Overlap = TRUE
          Scratch = FALSE
          Clobber = FALSE
INVARIANTS TypeOK Stateless Kept
CHECK_DEADLOCK FALSE
