------------------------------ MODULE FwdTrace ------------------------------
(* Validates what objects were recorded to have got against Fwd. *)
EXTENDS Fwd, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = 0
TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ e.op = "pass" /\ Pass(e.entry, e.args, e.saw, e.made, e.set, e.copies, e.il)
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
