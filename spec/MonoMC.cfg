CONSTANTS Bufs = {0, 1, 8, 11}
          Sizes = {0, 1, 3, 8, 1000}
          Aligns = {1, 2, 8}
          MaxBlocks = 3
          MaxChunks = 2
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Separate Inside OneOwner
PROPERTIES OnlyRelease FailureKeeps Restart
CHECK_DEADLOCK FALSE
