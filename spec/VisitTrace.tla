----------------------------- MODULE VisitTrace -----------------------------
(* Validates recorded visits of real variants against Visit. *)
EXTENDS Visit, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..Len(Traces[h].c.ty) |-> [i |-> 0, v |-> 0]]

\* same: every reference given (and, for "ref", returned) is to the stored object itself; exact: the result type is
\* the visitor's; own: the visitor was called with its own value category
Act(e) ==
  CASE e.op = "put"   -> Put(e.a[1], e.a[2], e.a[3])
    [] e.op = "lose"  -> Lose(e.a[1])
    [] e.op = "visit" -> Visit(e.ss, e.cs, e.m, e.w, e.r, e.calls, e.given, e.ret) /\ e.same /\ e.exact /\ e.own
    [] e.op = "pick"  -> Pick(e.x, e.ss, e.cs, e.r, e.won)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ \A s \in Slots : e.post[s] = arr'[s]
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
