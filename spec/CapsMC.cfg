INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Vals = {1, 2}
  Pairs = {1, 9, 20}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Decided Ordered
PROPERTIES CopyKeeps
CHECK_DEADLOCK FALSE
