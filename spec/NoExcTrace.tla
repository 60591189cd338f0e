----------------------------- MODULE NoExcTrace -----------------------------
(* Validates what was recorded without exceptions against NoExc. *)
EXTENDS NoExc, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Traces[h].c.first
Act(e) ==
  CASE e.op = "put"   -> Put(e.s, e.t, e.v)
    [] e.op = "clear" -> Clear(e.s)
    [] e.op = "copy"  -> Copy(e.s, e.t)
    [] e.op = "move"  -> Move(e.s, e.t)
    [] e.op = "swap"  -> Swap(e.s, e.t)
    [] e.op = "read"  -> Read(e.s, e.e, e.t, e.out)
    [] e.op = "ask"   -> Ask(e.s, e.e, e.t, e.out)
    [] OTHER -> FALSE
TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ e.post = arr'
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
