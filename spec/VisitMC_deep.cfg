INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Vals = {0, 1, 2}
  Wide = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Unambiguous
PROPERTIES Frame AllOrNothing
CHECK_DEADLOCK FALSE
