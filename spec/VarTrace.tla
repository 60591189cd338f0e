------------------------------ MODULE VarTrace ------------------------------
(* Validates recorded histories of real variants against Var.                 *)
(* Further cfg fields: slots, counted (alternative -> its objects are         *)
(* counted), uniq (alternative -> it can be asked for by type).               *)
EXTENDS Var, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..Traces[h].c.slots |-> Off]

Nothing == -1000
NotAsked == -2000

\* g: reading each alternative by index (checked and unchecked, const or not), t: by type, hold: holds_alternative,
\* vis: alternative and value a visitor is called with
Agrees(p, A) ==
  /\ p.on = A.on
  /\ p.on =>
      /\ p.i = A.i /\ p.x = (A.i = Lost)
      /\ \A k \in 1..Len(p.g) : \A j \in Alts : p.g[k][j] = (IF A.i = j THEN A.v ELSE Nothing)
      /\ \A j \in Alts : IF cfg.uniq[j]
                         THEN /\ \A k \in 1..Len(p.t) : p.t[k][j] = (IF A.i = j THEN A.v ELSE Nothing)
                              /\ p.hold[j] = (IF A.i = j THEN 1 ELSE 0)
                         ELSE p.hold[j] = NotAsked
      /\ p.vis = (IF A.i = Lost THEN <<Nothing, Nothing>> ELSE <<A.i, A.v>>)
Obs(p) == IF ~p.on THEN Off ELSE IF p.i = Lost THEN Gone ELSE Val(p.i, p.g[1][p.i])

Act(e) ==
  LET s == e.s a == e.a r == e.r IN
  CASE e.op = "newv"    -> NewVal(s, a[1], a[2], r)
    [] e.op = "copynew" -> CopyNew(s, a[1], r)
    [] e.op = "movenew" -> MoveNew(s, a[1], r)
    [] e.op = "assign"  -> Assign(s, a[1], a[2], e.nx, r)
    [] e.op = "emplace" -> Emplace(s, a[1], a[2], r) /\ (r = "ok" => e.ret = a[2])
    [] e.op = "copya"   -> CopyAssign(s, a[1], r)
    [] e.op = "movea"   -> MoveAssign(s, a[1], r)
    [] e.op = "swap"    -> IF s = a[1] THEN /\ arr[s].on /\ Set(s, Obs(e.post[s]))
                                            /\ arr'[s].i = arr[s].i
                                            /\ IF r = "ok" THEN arr'[s] = arr[s] ELSE r = "elem" /\ arr'[s].v \in {arr[s].v, Moved}
                           ELSE Swap(s, a[1], r, Obs(e.post[s]), Obs(e.post[a[1]]))
    [] e.op = "dest"    -> Destroy(s, r)
    [] e.op = "write"   -> Write(s, a[1], r)
    [] e.op = "take"    -> Take(s, a[1], r, e.ret)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ e.r = "elem" <=> e.fired
       /\ \A s \in Slots : Agrees(e.post[s], arr'[s])
       /\ e.live = Live(arr', cfg.counted)
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
