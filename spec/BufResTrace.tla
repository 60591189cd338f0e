---------------------------- MODULE BufResTrace -----------------------------
(* Validates recorded histories of the real resource against BufRes.         *)
EXTENDS BufRes, TLC, Json, IOUtils
VARIABLES h, i
tvars == <<cfg, blocks, h, i>>

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ blocks = NoBlocks

Fails == {"bad_alloc", "null"}
R(e) == IF e.r = "ok" THEN "ok" ELSE "fail"
RightFailure(e) == e.r # "ok" => (e.r = IF cfg.exc THEN "bad_alloc" ELSE "null")
NoCalls(e) == e.up = <<>>

\* the block is where the spec says and as aligned as asked for
Placed(e, al) == e.r = "ok" => /\ e.w = blocks'[e.id].w
                               /\ e.w = "buf" => e.off = blocks'[e.id].off
                               /\ e.am % al = 0

SatAdd(a, b) == IF a > cfg.cap - b THEN cfg.cap ELSE a + b

Step(e) ==
  /\ e.op # "crash"
  /\ e.op # "cfg" => e.dmg = 0                  \* every live block still holds what was written into it
  /\ CASE e.op = "cfg" -> /\ cfg' = [cfg EXCEPT !.base = e.base]
                         /\ e.eqs = <<3, 0, 0, 0>>    \* equal to itself, not to its upstream, another resource or its twin
                         /\ UNCHANGED blocks
       [] e.op = "alloc" ->
            /\ Alloc(e.id, e.sz, e.al, e.off, e.f, R(e))
            /\ RightFailure(e)
            /\ Placed(e, e.al)
            /\ e.up = CASE Source(e.sz, e.al) = "up" -> <<UpAlloc(e.sz, e.al, ~e.f)>>
                        [] OTHER -> <<>>
       [] e.op = "dealloc" ->
            /\ Dealloc(e.id)
            /\ e.up = IF blocks[e.id].w = "up" THEN <<UpDealloc(blocks[e.id].sz, blocks[e.id].al)>> ELSE <<>>
       [] e.op = "realloc" ->
            /\ Realloc(e.id, e.sz, e.f, R(e))
            /\ Placed(e, blocks[e.id].al)
            /\ \/ e.up = <<>> /\ (blocks[e.id].w = "buf" \/ R(e) = "fail")
               \/ blocks[e.id].w = "up" /\ e.up = <<UpRealloc(e.sz, blocks[e.id].al, R(e) = "ok")>>
       [] e.op = "rnull" ->
            /\ ReallocNull(e.id, e.sz, e.al, e.off, e.f, R(e))
            /\ Placed(e, e.al)
            /\ \/ e.up = <<>> /\ (Free \/ R(e) = "fail")
               \/ ~Free /\ e.up = <<UpRealloc(e.sz, e.al, R(e) = "ok")>>
       [] e.op = "max" ->
            /\ e.v = SatAdd(cfg.size, cfg.upmax)
            /\ e.size = cfg.size
            /\ UNCHANGED bvars
       [] e.op = "end" ->                        \* everything returned: the upstream holds nothing
            /\ e.outstanding = Cardinality({b \in Ids : blocks[b].w = "up"})
            /\ UNCHANGED bvars
       [] OTHER -> FALSE

TNext == \/ /\ i <= Len(Traces[h].e)
            /\ Step(Traces[h].e[i])
            /\ i' = i + 1
            /\ h' = h
         \/ /\ i > Len(Traces[h].e)
            /\ UNCHANGED tvars
=============================================================================
