INIT TInit
NEXT TNext
INVARIANTS TypeOK Plain
