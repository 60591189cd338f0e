INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Blocks = 3
  Sizes = {0, 1, 24, 200, 3000, 1000000000}
  Aligns = {1, 16, 32, 64}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Nothing
CHECK_DEADLOCK FALSE
