INIT Init
NEXT Next
CONSTANTS N = 8
          D = 5
INVARIANT Laws
CHECK_DEADLOCK FALSE
