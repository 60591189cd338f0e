INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Vals = {0, 1}
  Wide = FALSE
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Unambiguous
PROPERTIES Frame AllOrNothing
CHECK_DEADLOCK FALSE
