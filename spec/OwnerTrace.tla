----------------------------- MODULE OwnerTrace -----------------------------
(* Validates recorded histories of owning pointers against Owner. *)
EXTENDS Owner, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [own |-> [s \in 1..cfg.slots |-> Off], obj |-> [k \in 1..cfg.blocks |-> Gone], raw |-> NoRaw]
Act(e) ==
  CASE e.op = "make"    -> Make(e.s, e.k, e.m, e.v, FALSE, e.r, e.id, e.log)
    [] e.op = "makeo"   -> Make(e.s, e.k, e.m, e.v, TRUE, e.r, e.id, e.log)
    [] e.op = "new"     -> NewEmpty(e.s, e.log)
    [] e.op = "movenew" -> MoveNew(e.s, e.u, e.log)
    [] e.op = "movea"   -> MoveAssign(e.s, e.u, e.log)
    [] e.op = "swap"    -> Swap(e.s, e.u, e.log)
    [] e.op = "reset"   -> Reset(e.s, e.log)
    [] e.op = "release" -> Release(e.s, e.log)
    [] e.op = "put"     -> Put(e.s, e.log)
    [] e.op = "adopt"   -> Adopt(e.s, e.log)
    [] e.op = "dest"    -> Destroy(e.s, e.log)
    [] OTHER -> FALSE
TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ View1(arr') = e.seen
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
