---------------------------- MODULE SysMemTrace -----------------------------
(* Validates recorded uses of the real bottom resources against SysMem. *)
EXTENDS SysMem, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Start(4)

Act(e) ==
  CASE e.op = "alloc"   -> Allocate(e.b, e.n, e.a, e.spare, e.r, e)
    [] e.op = "free"    -> Deallocate(e.b, e.r, e)
    [] e.op = "realloc" -> Reallocate(e.b, e.n, e.a, e.r, e)
    [] e.op = "refuse"  -> Refuse(e.r)
    [] e.op = "ignore"  -> Ignore(e.r)
    [] e.op = "max"     -> MaxSize(e.ret)
    [] e.op = "eq"      -> Equal(e.other, e.eq, e.ne)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE /\ Act(Traces[h].e[i])
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
