INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Types = {1, 2, 4}
  Small = {0, 1, 3}
  Blocks = 1
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Known
CHECK_DEADLOCK FALSE
