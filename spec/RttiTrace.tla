----------------------------- MODULE RttiTrace ------------------------------
(* Validates recorded casts on real class hierarchies against Rtti. *)
EXTENDS Rtti, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Null
Act(e) ==
  CASE e.op = "start" -> Start(e.c, e.ok)
    [] e.op = "up"    -> Up(e.c, e.ok)
    [] e.op = "cast"  -> Cast(e.c, e.found, Range(e.at))
    [] e.op = "ask"   -> Ask(e.c, e.yes)
    [] e.op = "any"   -> AskAny(e.bytes, e.yes)
    [] e.op = "drop"  -> Drop
    [] e.op = "id"    -> Ident(e.c, e.bytes)
    [] e.op = "order" -> Order(e.c, e.d, e.lt, e.eq, e.gt)
    [] OTHER -> FALSE
TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
