SPECIFICATION Spec
CONSTANTS NQ = 4
          NT = 3
          LEN = 7
          Emitting = FALSE
INVARIANTS HeapOrder Refines Agrees HoldsAll
VIEW View
CHECK_DEADLOCK FALSE
