----------------------------- MODULE ConvTrace ------------------------------
(* Validates recorded conversions into real variants against Conv. *)
EXTENDS Conv, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Start

\* same: requests by type and by index agree on every alternative listed once; alike: implicit and explicit conversion
\* exist together
Act(e) ==
  /\ e.same /\ e.alike
  /\ CASE e.op = "make"   -> Make(e.x, e.c, e.v, e.ok, e.post.b)
       [] e.op = "assign" -> Assign(e.x, e.c, e.v, e.ok, e.post.b)
       [] e.op = "put"    -> Put(e.j, e.v, e.post.b)
       [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ arr' = e.post
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
