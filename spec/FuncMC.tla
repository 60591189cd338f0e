------------------------------- MODULE FuncMC -------------------------------
(* Exhaustive exploration of Func inside small bounds. *)
EXTENDS Func, TLC, Json
CONSTANTS NSlots, Vals
VARIABLE op
View == <<cfg, arr>>

\* kind 1 small, 2 large, 3 without state
C(p, e, big) == [pmr |-> p, exc |-> e, big |-> big, keeps |-> <<TRUE, TRUE, FALSE>>, kinds |-> IF p THEN {1, 2} ELSE {1, 3}]
Cfgs == {C(FALSE, TRUE, <<FALSE, FALSE, FALSE>>)}
   \cup {C(TRUE, e, b) : e \in BOOLEAN, b \in {<<FALSE, TRUE, FALSE>>, <<TRUE, TRUE, TRUE>>}}
Mrs == IF cfg.pmr THEN {1, 2} ELSE {0}
One == {1}
Two == {1, 2}

MCInit == /\ cfg \in Cfgs
          /\ arr = [s \in 1..NSlots |-> Off]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

Outcome(f) == CASE f = "n" -> "ok" [] f = "a" -> "alloc" [] f = "e" -> "elem"

MCStep ==
  \E s \in Slots, f \in {"n", "a", "e"} :
  LET r == Outcome(f) n == IF f = "n" THEN 0 ELSE 1 IN
  /\ f = "e" => cfg.exc
  /\ \/ f = "n" /\ \E m \in Mrs : New(s, m, r) /\ op' = <<"new", f, n, s, m>>
     \/ \E m \in Mrs, t \in cfg.kinds, v \in Vals : NewTarget(s, m, t, v, r) /\ op' = <<"newt", f, n, s, m, t, v>>
     \/ \E t \in cfg.kinds, v \in Vals :
          Store(s, t, v, r, r = "alloc") /\ op' = <<"store", f, n, s, t, v>>
     \/ \E u \in Slots :
          \/ CopyNew(s, u, r) /\ op' = <<"copynew", f, n, s, u>>
          \/ CopyAssign(s, u, r) /\ op' = <<"copya", f, n, s, u>>
          \/ f = "n" /\ Swap(s, u, r, FALSE, FALSE) /\ op' = <<"swap", f, n, s, u>>
          \/ f = "n" /\ MoveNew(s, u, r) /\ op' = <<"movenew", f, n, s, u>>
          \/ f = "n" /\ MoveAssign(s, u, r) /\ op' = <<"movea", f, n, s, u>>
     \/ f = "n" /\
          \/ Reset(s, r) /\ op' = <<"reset", f, n, s>>
          \/ \E m \in Mrs : ResetMr(s, m, r) /\ op' = <<"resetmr", f, n, s, m>>
          \/ Destroy(s, r) /\ op' = <<"dest", f, n, s>>
          \/ Has(s) /\ Call(s, 1, r, <<arr[s].v, arr[s].b, 1>>, <<<<arr[s].v, arr[s].b, 1>>>>) /\ op' = <<"call", f, n, s, 1>>
          \/ ~Has(s) /\ Call(s, 1, "bad", <<>>, <<>>) /\ op' = <<"call", f, n, s, 1>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

Touched == IF op'[1] \in {"copynew", "copya", "swap", "movenew", "movea"} THEN {op'[4], op'[5]} ELSE {op'[4]}
FrameOK == [][\A s \in Slots \ Touched : arr'[s] = arr[s]]_View
CopyKeepsSource == [][op'[1] \in {"copynew", "copya"} => arr'[op'[5]] = arr[op'[5]]]_View
\* a call changes the state of the called target only, and never what is held
CallKeepsTarget == [][op'[1] = "call" => \A s \in Slots : arr'[s].t = arr[s].t /\ arr'[s].v = arr[s].v
                                                         /\ (s # op'[4] => arr'[s].b = arr[s].b)]_View
=============================================================================
