INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Kinds <- Small
  Vals <- Three
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK AbsentFirst NullIsAbsent ValueIsPresent ByAlternative IsOrder
PROPERTIES ComparingChangesNothing
CHECK_DEADLOCK FALSE
