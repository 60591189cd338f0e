INIT TInit
NEXT TNext
INVARIANTS TypeOK Bounded OffIsEmpty
