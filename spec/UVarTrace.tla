----------------------------- MODULE UVarTrace ------------------------------
(* Validates recorded histories of real type-erased variants against UVar.    *)
(* Further cfg fields: slots, size (type -> its size), qs (types that can be  *)
(* asked for), ask (sequence of flags over qs), nmr (number of resources).    *)
EXTENDS UVar, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..Traces[h].c.slots |-> Off]

Null == -1000
NotAsked == -2000

\* what the recorded accessors say about one object
Obs(p) == IF ~p.on THEN Off ELSE Obj(IF p.x THEN Lost ELSE p.tid, IF p.tid > 0 THEN p.q[p.tid] ELSE 0, p.mr)
Agrees(p, A) ==
  /\ p.on = A.on
  /\ p.on =>
      /\ p.e = (A.t > 0)
      /\ p.x = (A.t = Lost)
      /\ p.tid = (IF A.t > 0 THEN A.t ELSE 0)
      /\ p.n = (IF A.t > 0 THEN cfg.size[A.t] ELSE 0)
      /\ p.mr = A.mr
      /\ \A k \in 1..Len(p.q) :
           IF cfg.ask[k] THEN LET want == IF k \in Sat(A.t) THEN A.v ELSE Null IN p.q[k] = want /\ p.c[k] = want
           ELSE p.q[k] = NotAsked

Act(e) ==
  LET s == e.s a == e.a r == e.r IN
  CASE e.op = "new"     -> New(s, a[1], r)
    [] e.op = "newv"    -> NewVal(s, a[1], a[2], a[3], r)
    [] e.op = "copynew" -> CopyNew(s, a[1], r)
    [] e.op = "movenew" -> MoveNew(s, a[1], r)
    [] e.op = "store"   -> Store(s, a[1], a[2], r) /\ e.ret = (IF r = "ok" THEN a[2] ELSE Null)
    [] e.op = "copya"   -> CopyAssign(s, a[1], r)
    [] e.op = "movea"   -> MoveAssign(s, a[1], r)
    [] e.op = "swap"    -> Swap(s, a[1], r, Obs(e.post[s]), Obs(e.post[a[1]]))
    [] e.op = "reset"   -> Reset(s, r)
    [] e.op = "resetmr" -> ResetMr(s, a[1], r)
    [] e.op = "dest"    -> Destroy(s, r)
    [] e.op = "write"   -> Write(s, a[1], r)
    [] e.op = "get"     -> Get(s, a[1], IF a[2] = 3 /\ a[1] <= Len(cfg.big) THEN "move" ELSE "look", r, e.ret)
    [] OTHER -> FALSE

\* an injected failure was seen by the caller, and nothing else failed
FaultOK(e) == e.r \in {"ok", "bad"} <=> ~e.fired

LedgerOK(e, a) ==
  /\ e.live = Live(a)
  /\ \A m \in 1..Len(e.bl) : e.bl[m] >= Blocks(a, m) /\ e.bl[m] <= Blocks(a, m) + LostAt(a, m)

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ FaultOK(e)
       /\ \A s \in Slots : Agrees(e.post[s], arr'[s])
       /\ LedgerOK(e, arr')
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
