--------------------------- MODULE PolyAllocTrace ---------------------------
(* Validates recorded uses of real polymorphic allocators against PolyAlloc. *)
EXTENDS PolyAlloc, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Start(<<1, 2>>, 2)

Quiet(e) == e.calls = <<>>
Act(e) ==
  CASE e.op = "alloc"   -> Allocate(e.a, e.b, e.t, e.n, e.fail, e.r, e.calls)
    [] e.op = "free"    -> Deallocate(e.a, e.b, e.r, e.calls)
    [] e.op = "realloc" -> Reallocate(e.a, e.b, e.n, e.fail, e.r, e.calls)
    [] e.op = "max"     -> Quiet(e) /\ MaxSize(e.a, e.t, e.ret)
    [] e.op = "copy"    -> Quiet(e) /\ Copy(e.s, e.d)
    [] e.op = "make"    -> Quiet(e) /\ Make(e.d, e.res)
    [] e.op = "eq"      -> Quiet(e) /\ Equality(e.s, e.d, e.eq, e.ne)
    [] e.op = "one"     -> Quiet(e) /\ Construct(e.a, e.t, e.k, e.x, e.r, e.log, e.whole, e.alive)
    [] e.op = "pair"    -> Quiet(e) /\ ConstructPair(e.a, e.t, e.k, e.l, IF e.how = "none" THEN "refs" ELSE e.how, e.x, e.y, e.r, e.log, e.whole, e.alive)
    [] e.op = "deriv"   -> Quiet(e) /\ ConstructDerived(e.a, e.t, e.k, e.l, e.x, e.y, e.r, e.log, e.whole, e.alive)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ arr'.al = e.al
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
