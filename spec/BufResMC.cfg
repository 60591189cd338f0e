INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  MaxIds = 2
  Sizes <- MCSizes
  Aligns <- MCAligns
  Cfgs <- MCCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK OneInBuffer InsideBuffer UpstreamBounded
PROPERTIES OthersKept
CHECK_DEADLOCK FALSE
