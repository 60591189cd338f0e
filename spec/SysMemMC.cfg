INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Blocks = 2
  Sizes = {0, 1, 24, 200, 1000000000}
  Aligns = {1, 8, 16, 32, 64}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Nothing
CHECK_DEADLOCK FALSE
