----------------------------- MODULE SpanTrace ------------------------------
(* Validates recorded uses of real spans against Span. *)
EXTENDS Span, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Start(Traces[h].c.mem, 2)

Act(e) ==
  CASE e.op = "make"  -> Make(e.d, e.o, e.n, e.x, e.c)
    [] e.op = "none"  -> MakeNone(e.d, e.x, e.c)
    [] e.op = "first" -> First(e.d, arr.s[e.s], e.n, e.f)
    [] e.op = "last"  -> Last(e.d, arr.s[e.s], e.n, e.f)
    [] e.op = "sub"   -> Sub(e.d, arr.s[e.s], e.k, e.n, e.f)
    [] e.op = "todyn" -> ToDynamic(e.d, arr.s[e.s])
    [] e.op = "tofix" -> ToFixed(e.d, arr.s[e.s])
    [] e.op = "tocst" -> ToConst(e.d, arr.s[e.s])
    [] e.op = "copy"  -> Copy(e.d, arr.s[e.s])
    [] e.op = "write" -> Write(arr.s[e.s], e.k, e.v)
    [] e.op = "can"   -> UNCHANGED arr /\ e.fits = Fits(e.from, e.to) /\ e.impl = Implicit(e.from, e.to)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ arr'.mem = e.mem
       /\ \A j \in 1..Len(arr.s) : e.post[j].c = arr'.s[j].c
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
\* checked in the state an event led to
Agrees == i > 1 => \A j \in 1..Len(arr.s) : Says(arr.s[j], Traces[h].e[i - 1].post[j])
=============================================================================
