CONSTANTS Bufs = {0, 11, 16}
          Sizes = {0, 1, 3, 8, 1000}
          Aligns = {1, 2, 8}
          MaxBlocks = 4
          MaxChunks = 2
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Separate Inside OneOwner
PROPERTIES OnlyRelease FailureKeeps Restart
CHECK_DEADLOCK FALSE
