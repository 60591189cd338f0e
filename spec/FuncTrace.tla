----------------------------- MODULE FuncTrace ------------------------------
(* Validates recorded histories of real function wrappers against Func. *)
EXTENDS Func, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..Traces[h].c.slots |-> Off]

Agrees(p, A) ==
  /\ p.on = A.on
  /\ p.on => p.e = (A.t > 0) /\ p.x = (A.t = Lost) /\ p.mr = A.mr

Act(e) ==
  LET s == e.s a == e.a r == e.r IN
  CASE e.op = "new"     -> New(s, a[1], r)
    [] e.op = "newt"    -> NewTarget(s, a[1], a[2], a[3], r)
    [] e.op = "copynew" -> CopyNew(s, a[1], r)
    [] e.op = "movenew" -> MoveNew(s, a[1], r)
    [] e.op = "store"   -> Store(s, a[1], a[2], r, e.post[s].x)
    [] e.op = "copya"   -> CopyAssign(s, a[1], r)
    [] e.op = "movea"   -> MoveAssign(s, a[1], r)
    [] e.op = "swap"    -> Swap(s, a[1], r, e.post[s].x, e.post[a[1]].x)
    [] e.op = "reset"   -> Reset(s, r)
    [] e.op = "resetmr" -> ResetMr(s, a[1], r)
    [] e.op = "dest"    -> Destroy(s, r)
    [] e.op = "call"    -> Call(s, a[1], r, e.ret, e.log)
    [] OTHER -> FALSE

FaultOK(e) == e.r \in {"ok", "bad"} <=> ~e.fired
LedgerOK(e, a) ==
  /\ e.live = Live(a)
  /\ \A m \in 1..Len(e.bl) : e.bl[m] >= Blocks(a, m) /\ e.bl[m] <= Blocks(a, m) + LostAt(a, m)

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ FaultOK(e)
       /\ e.op # "call" => e.log = <<>>     \* nothing else invokes a target
       /\ \A s \in Slots : Agrees(e.post[s], arr'[s])
       /\ LedgerOK(e, arr')
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
