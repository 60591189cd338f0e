INIT TInit
NEXT TNext
INVARIANTS TypeOK Nothing
