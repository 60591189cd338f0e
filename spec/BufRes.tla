------------------------------- MODULE BufRes -------------------------------
(* A memory resource over one fixed buffer with an upstream fallback.        *)
(* One action per public call; `how` arguments carry the outcome, so that    *)
(* the same definitions are explored by BufResMC and bound to recorded       *)
(* events by BufResTrace.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  cfg,     \* [size: buffer bytes, base: buffer address mod 4096, upmax: bytes the upstream may be asked for,
           \*  uprealloc: can the upstream re-allocate]
  blocks   \* live blocks: id -> [w: "buf"|"up", sz, al, off]

bvars == <<cfg, blocks>>

Ids == DOMAIN blocks
NoBlocks == [x \in {} |-> 0]

Free == \A b \in Ids : blocks[b].w # "buf"

\* offset of the first aligned address of the buffer
AlignOff(al) == LET m == cfg.base % al IN IF m = 0 THEN 0 ELSE al - m
Fits(sz, al) == cfg.size > 0 /\ AlignOff(al) + sz <= cfg.size

\* Where a request has to be served from.
Source(sz, al) == IF Free /\ Fits(sz, al) THEN "buf"
                  ELSE IF sz <= cfg.upmax THEN "up" ELSE "none"

Put(id, b)  == blocks' = [x \in Ids \cup {id} |-> IF x = id THEN b ELSE blocks[x]]
Drop(id)    == blocks' = [x \in Ids \ {id} |-> blocks[x]]

\* allocate: r is "ok" or "fail"; upfail says whether the upstream was made to refuse
Alloc(id, sz, al, off, upfail, r) ==
  /\ id \notin Ids
  /\ UNCHANGED cfg
  /\ CASE Source(sz, al) = "buf"  -> r = "ok" /\ off = AlignOff(al)
                                     /\ Put(id, [w |-> "buf", sz |-> sz, al |-> al, off |-> off])
       [] Source(sz, al) = "up"   -> IF upfail THEN r = "fail" /\ UNCHANGED blocks
                                     ELSE r = "ok" /\ Put(id, [w |-> "up", sz |-> sz, al |-> al, off |-> -1])
       [] OTHER                   -> r = "fail" /\ UNCHANGED blocks

\* deallocate
Dealloc(id) ==
  /\ id \in Ids
  /\ UNCHANGED cfg
  /\ Drop(id)

\* reallocate of a live block to a non-zero size with the alignment it has.
Realloc(id, sz, upfail, r) ==
  /\ id \in Ids
  /\ sz > 0
  /\ UNCHANGED cfg
  /\ LET b == blocks[id] IN
     IF b.w = "buf"
     THEN IF Fits(sz, b.al) THEN r = "ok" /\ Put(id, [b EXCEPT !.sz = sz])
          ELSE r = "fail" /\ UNCHANGED blocks
     ELSE IF cfg.uprealloc /\ sz <= cfg.upmax /\ ~upfail
          THEN r = "ok" /\ Put(id, [b EXCEPT !.sz = sz])
          ELSE r = "fail" /\ UNCHANGED blocks

\* reallocate(null): obtains the buffer when it is free, or asks the upstream
ReallocNull(id, sz, al, off, upfail, r) ==
  /\ id \notin Ids
  /\ sz > 0
  /\ UNCHANGED cfg
  /\ IF Free
     THEN IF Fits(sz, al)
          THEN r = "ok" /\ off = AlignOff(al)
               /\ Put(id, [w |-> "buf", sz |-> sz, al |-> al, off |-> off])
          ELSE r = "fail" /\ UNCHANGED blocks
     ELSE IF cfg.uprealloc /\ sz <= cfg.upmax /\ ~upfail
          THEN r = "ok" /\ Put(id, [w |-> "up", sz |-> sz, al |-> al, off |-> -1])
          ELSE r = "fail" /\ UNCHANGED blocks

\* What the upstream must have been asked during a call, as <<kind, size, alignment, granted>>.
UpAlloc(sz, al, ok)   == <<"a", sz, al, ok>>
UpRealloc(sz, al, ok) == <<"r", sz, al, ok>>
UpDealloc(sz, al)     == <<"d", sz, al, TRUE>>

-----------------------------------------------------------------------------
TypeOK == \A b \in Ids : blocks[b].w \in {"buf", "up"} /\ blocks[b].sz \in Nat

\* at most one live block in the buffer, inside it and aligned
OneInBuffer == Cardinality({b \in Ids : blocks[b].w = "buf"}) <= 1
InsideBuffer == \A b \in Ids : blocks[b].w = "buf" =>
                  /\ blocks[b].off >= 0
                  /\ blocks[b].off + blocks[b].sz <= cfg.size
                  /\ (cfg.base + blocks[b].off) % blocks[b].al = 0
UpstreamBounded == \A b \in Ids : blocks[b].w = "up" => blocks[b].sz <= cfg.upmax
=============================================================================
