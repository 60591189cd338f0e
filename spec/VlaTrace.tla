------------------------------ MODULE VlaTrace ------------------------------
(* Validates recorded histories of real arrays against Vla.                  *)
(* cfg fields: bits, exc, pocma, pocca, aleq, socc (allocator a copy gets, 0 *)
(* = that of the source), amax (allocator -> maximum size it reports),       *)
(* tight (memory is finite), count (element objects are counted),            *)
(* ledger (blocks are recorded), slots.                                      *)
EXTENDS Vla, TLC, Json, IOUtils
VARIABLES h, i
tvars == <<cfg, arr, h, i>>

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..Traces[h].c.slots |-> Off]

Proj(A) == [on |-> A.on, q |-> A.q, cap |-> A.cap, max |-> IF A.on THEN Mx(A) ELSE 0, al |-> A.al]

\* observed state of every slot; the event lists only the slots that changed
Obs(e) == [s \in Slots |-> LET K == {k \in 1..Len(e.post) : e.post[k].s = s}
                           IN IF K = {} THEN Proj(arr[s])
                              ELSE LET p == e.post[CHOOSE k \in K : TRUE]
                                   IN [on |-> p.on, q |-> p.q, cap |-> p.cap, max |-> p.max, al |-> p.al]]

\* values of an aliasing argument: element k of slot s before the call
At(s, k) == arr[s].q[k]
Has(s, k) == arr[s].on /\ k \in 1..Len(arr[s].q)

Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]

Act(e, x) ==
  LET s == e.s a == e.a r == e.r f == e.f IN
  CASE e.op = "new"      -> New(s, a[1], a[2], r, x)
    [] e.op = "list"     -> List(s, a[1], a[2], e.v, r, f, x)
    [] e.op = "copynew"  -> CopyNew(s, a[1], r, f, x)
    [] e.op = "copynewa" -> CopyNewA(s, a[1], a[2], r, f, x)
    [] e.op = "movenew"  -> MoveNew(s, a[1], r, x)
    [] e.op = "movenewa" -> MoveNewA(s, a[1], a[2], r, f, x)
    [] e.op = "destroy"  -> Destroy(s, r)
    [] e.op = "push"     -> Push(s, a[1], r, f, x)
    [] e.op = "pushalias" -> Has(s, a[1]) /\ Push(s, At(s, a[1]), r, f, x)
    [] e.op = "pop"      -> Pop(s, r)
    [] e.op = "clear"    -> Clear(s, r)
    [] e.op = "resize"   -> Resize(s, a[1], a[2], r, f, x)
    [] e.op = "resizealias" -> Has(s, a[2]) /\ Resize(s, a[1], At(s, a[2]), r, f, x)
    [] e.op = "assign"   -> Assign(s, a[1], a[2], r, f, x)
    [] e.op = "assignalias" -> Has(s, a[2]) /\ Assign(s, a[1], At(s, a[2]), r, f, x)
    [] e.op = "reserve"  -> Reserve(s, a[1], r, f, x)
    [] e.op = "shrink"   -> Shrink(s, r, f, x)
    [] e.op = "write"    -> Write(s, a[1], a[2], r)
    [] e.op = "flip"     -> Has(s, a[1]) /\ Write(s, a[1], 1 - At(s, a[1]), r)
    [] e.op = "refassign" -> Has(s, a[1]) /\ Has(s, a[2]) /\ Write(s, a[1], At(s, a[2]), r)
    [] e.op = "copyassign" -> CopyAssign(s, a[1], r, f, x)
    [] e.op = "moveassign" -> MoveAssign(s, a[1], r, f, x)
    \* reads
    [] e.op = "eq"       -> /\ arr[s].on /\ arr[a[1]].on /\ r = "ok"
                            /\ e.eq = (arr[s].q = arr[a[1]].q)
                            /\ e.ne = (arr[s].q # arr[a[1]].q)
                            /\ Same
    [] e.op = "at"       -> /\ arr[s].on
                            /\ IF Has(s, a[1]) THEN r = "ok" /\ e.val = At(s, a[1]) ELSE r = "out_of_range"
                            /\ Same
    [] e.op = "bit"      -> /\ arr[s].on /\ r = "ok"       \* bit test anywhere, out of range reads false
                            /\ e.val = (IF Has(s, a[1]) THEN At(s, a[1]) ELSE 0)
                            /\ Same
    [] e.op = "setbit"   -> /\ arr[s].on /\ r = "ok"       \* bit write anywhere, out of range does nothing
                            /\ IF Has(s, a[1]) THEN Write(s, a[1], a[2], r) ELSE Same
    [] e.op = "iter"     -> /\ arr[s].on /\ r = "ok"
                            /\ e.fw = arr[s].q
                            /\ e.bw = Rev(arr[s].q)
                            /\ e.rnd = arr[s].q
                            /\ e.arith
                            /\ Same
    [] OTHER -> FALSE

LedgerOK(e, a) ==
  /\ cfg.count => e.live = Live(a)
  /\ cfg.ledger =>
       /\ \A k \in 1..Len(e.bl) : e.bl[k][3] = Blocks(a, e.bl[k][1], e.bl[k][2])
       /\ e.nbl = Cardinality(Holding(a))

Step(e) ==
  /\ e.op # "crash"
  /\ UNCHANGED cfg
  /\ LET x == Obs(e) IN
       /\ Act(e, x)
       /\ \A s \in Slots : Proj(arr'[s])  = x[s]
  /\ e.ag                       \* all ways of reading every array agree
  /\ LedgerOK(e, arr')

TNext == \/ /\ i <= Len(Traces[h].e)
            /\ Step(Traces[h].e[i])
            /\ i' = i + 1
            /\ h' = h
         \/ /\ i > Len(Traces[h].e)
            /\ UNCHANGED tvars
=============================================================================
