------------------------------- MODULE UVarMC -------------------------------
(* Exhaustive exploration of UVar inside small bounds. *)
EXTENDS UVar, TLC, Json
CONSTANTS NSlots, Vals, Faults, Cfgs
VARIABLE op
View == <<cfg, arr>>

\* type 1 fits in place where there is room, type 2 does not; type 3 can be read as 4
C(p, cp, mv, big) == [pmr |-> p, exc |-> TRUE, cp |-> cp, mv |-> mv, big |-> big, bases |-> <<<<>>, <<>>, <<4>>, <<>>>>,
                      types |-> IF p THEN {1, 2} ELSE {1, 3}]
InPlace == <<FALSE, FALSE, FALSE, FALSE>>
Mixed   == <<FALSE, TRUE, FALSE, FALSE>>
AllRes  == <<TRUE, TRUE, TRUE, TRUE>>
AllCfgs == {C(FALSE, cp, mv, InPlace) : cp \in BOOLEAN, mv \in BOOLEAN}
      \cup {C(TRUE, cp, mv, b) : cp \in BOOLEAN, mv \in BOOLEAN, b \in {Mixed, AllRes}}
NoExcCfgs == {[C(TRUE, cp, mv, b) EXCEPT !.exc = FALSE] : cp \in BOOLEAN, mv \in BOOLEAN, b \in {Mixed, AllRes}}
FullCfgs == AllCfgs \cup NoExcCfgs
Mrs == IF cfg.pmr THEN {1, 2} ELSE {0}
One == {1}
Two == {1, 2}
NoFault == {"n"}
AllFaults == {"n", "a", "e"}

MCInit == /\ cfg \in Cfgs
          /\ arr = [s \in 1..NSlots |-> Off]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

Outcome(f) == CASE f = "n" -> "ok" [] f = "a" -> "alloc" [] f = "e" -> "elem"
\* after a failed swap the second object has lost its value
After(s, u, r) == IF r = "ok" THEN <<arr[u], arr[s]>> ELSE <<arr[s], Obj(Lost, 0, arr[s].mr)>>

MCStep ==
  \E s \in Slots, f \in Faults :
  LET r == Outcome(f) n == IF f = "n" THEN 0 ELSE 1 IN
  /\ f = "e" => cfg.exc
  /\ \/ f = "n" /\ \E m \in Mrs : New(s, m, r) /\ op' = <<"new", f, n, s, m>>
     \/ \E m \in Mrs, t \in cfg.types, v \in Vals : NewVal(s, m, t, v, r) /\ op' = <<"newv", f, n, s, m, t, v>>
     \/ \E t \in cfg.types, v \in Vals : Store(s, t, v, r) /\ op' = <<"store", f, n, s, t, v>>
     \/ \E u \in Slots :
          \/ CopyNew(s, u, r) /\ op' = <<"copynew", f, n, s, u>>
          \/ CopyAssign(s, u, r) /\ op' = <<"copya", f, n, s, u>>
          \/ Swap(s, u, r, After(s, u, r)[1], After(s, u, r)[2]) /\ op' = <<"swap", f, n, s, u>>
          \/ f = "n" /\ MoveNew(s, u, r) /\ op' = <<"movenew", f, n, s, u>>
          \/ f = "n" /\ MoveAssign(s, u, r) /\ op' = <<"movea", f, n, s, u>>
     \/ f = "n" /\
          \/ Reset(s, r) /\ op' = <<"reset", f, n, s>>
          \/ \E m \in Mrs : ResetMr(s, m, r) /\ op' = <<"resetmr", f, n, s, m>>
          \/ Destroy(s, r) /\ op' = <<"dest", f, n, s>>
          \/ \E v \in Vals : Write(s, v, r) /\ op' = <<"write", f, n, s, v>>
          \/ Has(s) /\ arr[s].v # Moved /\ Get(s, arr[s].t, "move", r, arr[s].v) /\ op' = <<"get", f, n, s, arr[s].t, 3>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* only the objects named by an operation change
Touched == IF op'[1] \in {"copynew", "copya", "swap", "movenew", "movea"} THEN {op'[4], op'[5]} ELSE {op'[4]}
FrameOK == [][\A s \in Slots \ Touched : arr'[s] = arr[s]]_View
\* copying never changes its source, moving always empties it
CopyKeepsSource == [][op'[1] \in {"copynew", "copya"} => arr'[op'[5]] = arr[op'[5]]]_View
MoveEmpties == [][op'[1] \in {"movenew", "movea"} /\ op'[4] # op'[5] => arr'[op'[5]].t = Empty]_View
\* values are neither made nor lost except by the operations that say so
NoInvention == [][\A s \in Slots : arr'[s].t > 0 =>
                    \/ op'[1] \in {"newv", "store", "write", "get"}
                    \/ \E u \in Slots : arr[u].t = arr'[s].t /\ arr[u].v = arr'[s].v]_View
=============================================================================
