------------------------------ MODULE OptTrace ------------------------------
(* Validates recorded histories of real optionals against Opt. *)
EXTENDS Opt, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..Len(Traces[h].c.kind) |-> Off]

Nothing == -1000
Default == 777

\* o: every way to look; w: the checked ways, w[k] = Nothing when they raise the error; d: with a fallback
Agrees(p, A) ==
  /\ p.on = A.on
  /\ p.on =>
      /\ p.e = A.e /\ p.b = A.e
      /\ \A k \in 1..Len(p.o) : A.e /\ p.o[k] = A.v
      /\ A.e => Len(p.o) > 0
      /\ \A k \in 1..Len(p.w) : p.w[k] = (IF A.e THEN A.v ELSE Nothing)
Obs(p) == IF ~p.on THEN Off ELSE IF ~p.e THEN None ELSE Some(p.o[1])

Act(e) ==
  LET s == e.s a == e.a r == e.r IN
  CASE e.op = "newd"    -> New(s, r)
    [] e.op = "newv"    -> NewVal(s, a[1], r)
    [] e.op = "copynew" -> CopyNew(s, a[1], r)
    [] e.op = "movenew" -> MoveNew(s, a[1], r, Obs(e.post[a[1]]))
    [] e.op = "assign"  -> Assign(s, a[1], r)
    [] e.op = "emplace" -> Emplace(s, a[1], r) /\ (r = "ok" => e.ret = a[1])
    [] e.op = "copya"   -> CopyAssign(s, a[1], r)
    [] e.op = "movea"   -> MoveAssign(s, a[1], r, Obs(e.post[a[1]]))
    [] e.op = "swap"    -> Swap(s, a[1], r, Obs(e.post[s]), Obs(e.post[a[1]]))
    [] e.op = "reset"   -> Reset(s, r)
    [] e.op = "dest"    -> Destroy(s, r)
    [] e.op = "write"   -> Write(s, a[1], r)
    [] e.op = "take"    -> Take(s, a[1] = 1, r, e.ret)
    [] e.op = "takeor"  -> TakeOr(s, a[2], a[1] = 1, r, e.ret)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ e.r = "elem" <=> e.fired
       /\ \A s \in Slots : Agrees(e.post[s], arr'[s])
       /\ e.live = (IF cfg.counted THEN Live(arr') ELSE Cardinality({s \in Slots : ~T(s) /\ arr'[s].e}))
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
