CONSTANTS NS = 2
          Fams = {1, 3, 4, 5}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OwnedOnce DeleterFits
PROPERTY Balance
CHECK_DEADLOCK FALSE
