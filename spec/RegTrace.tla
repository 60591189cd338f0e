------------------------------ MODULE RegTrace ------------------------------
(* Validates recorded concurrent calls against Reg: the state is the set of   *)
(* all states the calls seen so far can have led to.                          *)
EXTENDS Reg, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
RECURSIVE Close(_, _)
Close(all, new) == IF new = {} THEN all
                   ELSE LET n == (UNION {Internal(s) : s \in new}) \ all IN Close(all \cup n, n)
TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = LET S == {Start(1..cfg.threads)} IN
                  IF cfg.fresh THEN S ELSE {[s EXCEPT !.nd = cfg.nd, !.df = cfg.df] : s \in S}
After(e) ==
  CASE e.op = "inv" -> UNION {Invoke(s, e.t, e.k, e.a) : s \in arr}
    [] e.op = "ret" -> UNION {Return(s, e.t, e.v) : s \in Close(arr, arr)}
    [] OTHER -> {}
TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ arr' = After(e)
       /\ arr' # {}
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
