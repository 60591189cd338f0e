INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Len3 = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
