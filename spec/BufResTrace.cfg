INIT TInit
NEXT TNext
INVARIANTS TypeOK OneInBuffer InsideBuffer UpstreamBounded
