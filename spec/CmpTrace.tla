------------------------------ MODULE CmpTrace ------------------------------
(* Validates recorded comparisons of real optionals and variants against Cmp. *)
EXTENDS Cmp, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = [s \in 1..Len(Traces[h].c.kind) |-> [i |-> 0, v |-> 0]]

Act(e) ==
  LET a == e.a IN
  CASE e.op = "put"   -> Put(a[1], a[2], a[3])
    [] e.op = "clear" -> Clear(a[1])
    [] e.op = "cmp"   -> Compare(a[1], a[2], e.r)
    [] e.op = "cmpv"  -> CompareVal(a[1], a[2], a[3], e.r)
    [] e.op = "cmpn"  -> CompareNull(a[1], e.r)
    [] e.op = "has"   -> Has(e.own, e.r)
    [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ \A s \in Slots : e.post[s] = arr'[s]
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
