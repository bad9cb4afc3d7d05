SPECIFICATION Spec
CONSTANTS N = 3
          K = 4
          Overlap = FALSE
          Scratch = FALSE
          Clobber = FALSE
INVARIANTS TypeOK Stateless Kept Emits
CHECK_DEADLOCK FALSE
