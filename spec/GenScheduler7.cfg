SPECIFICATION Spec
CONSTANTS NQ = 2
          NT = 2
          LEN = 7
          Emitting = TRUE
INVARIANTS HeapOrder Refines Agrees HoldsAll Gen
CHECK_DEADLOCK FALSE
