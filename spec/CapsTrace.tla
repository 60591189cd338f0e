------------------------------ MODULE CapsTrace ------------------------------
(* Validates recorded questions to, and uses of, real wrappers against Caps. *)
EXTENDS Caps, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..2 |-> IF cfg.k = "var" THEN [i |-> 1, v |-> 0] ELSE None]

\* r: "ok", or "absent" if there is no such function
Act(e) ==
  CASE e.op = "ask"    -> Ask(e.w, e.q, e.a)
    [] e.op = "put"    -> Put(e.s, e.i, e.v, e.log)
    [] e.op = "clear"  -> Clear(e.s, e.log)
    [] e.op = "made"   -> e.r = "ok" /\ Made(e.s, e.f, e.w, e.log, e.end)
    [] e.op = "assign" -> e.r = "ok" /\ Assigned(e.d, e.s, e.f, e.log)
    [] e.op = "swap"   -> e.r = "ok" /\ Swapped(1, 2)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ e.op # "ask" => \A s \in Slots : e.post[s] = arr'[s]
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
