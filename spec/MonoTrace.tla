----------------------------- MODULE MonoTrace ------------------------------
(* Validates recorded histories of a monotonic resource against Mono. *)
EXTENDS Mono, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Empty
Act(e) ==
  CASE e.op = "alloc"   -> Allocate(e.n, e.al, e.r, e.c, e.at, e.ups, e.intact)
    [] e.op = "dealloc" -> Deallocate(e.b, e.ups, e.intact)
    [] e.op = "release" -> Release(e.ups)
    [] e.op = "max"     -> MaxSize(e.v, e.ups, e.intact)
    [] OTHER -> FALSE
TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ cfg.eqs = <<3, 0, 0>>      \* equal to itself, not to its upstream or its twin
       /\ Act(e)
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
