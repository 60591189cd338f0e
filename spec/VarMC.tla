-------------------------------- MODULE VarMC -------------------------------
(* Exhaustive exploration of Var inside small bounds. *)
EXTENDS Var, TLC, Json
CONSTANTS NSlots, Vals, Cfgs
VARIABLE op
View == <<cfg, arr>>

A(nm, nc, keep) == [nm |-> nm, nc |-> nc, keep |-> keep]
C(alts, cp) == [alts |-> alts, cc |-> cp, ca |-> cp, mc |-> TRUE, ma |-> TRUE]
Trivial  == A(TRUE, TRUE, TRUE)
CopyFail == A(TRUE, FALSE, FALSE)
AllFail  == A(FALSE, FALSE, FALSE)
MoveFail == A(FALSE, TRUE, FALSE)
NoneFail == A(TRUE, TRUE, FALSE)
Mixed    == C(<<Trivial, CopyFail, AllFail>>, TRUE)
Quiet    == C(<<CopyFail, MoveFail, NoneFail>>, TRUE)
MoveOnly == C(<<CopyFail, Trivial>>, FALSE)
AllCfgs  == {Mixed, Quiet, MoveOnly}
TwoCfgs  == {Mixed, Quiet}
One == {1}
Two == {0, 1}

MCInit == /\ cfg \in Cfgs
          /\ arr = [s \in 1..NSlots |-> Off]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

MCStep ==
  \E s \in Slots, f \in {"n", "e"} :
  LET r == IF f = "n" THEN "ok" ELSE "elem" n == IF f = "n" THEN 0 ELSE 1 IN
  \/ \E j \in Alts, v \in Vals :
       \/ NewVal(s, j, v, r) /\ op' = <<"newv", f, n, s, j, v>>
       \/ Emplace(s, j, v, r) /\ op' = <<"emplace", f, n, s, j, v>>
       \/ (f = "e" => ~cfg.alts[j].keep) /\ Assign(s, j, v, cfg.alts[j].keep, r) /\ op' = <<"assign", f, n, s, j, v>>
  \/ \E u \in Slots :
       \/ CopyNew(s, u, r) /\ op' = <<"copynew", f, n, s, u>>
       \/ MoveNew(s, u, r) /\ op' = <<"movenew", f, n, s, u>>
       \/ (f = "e" => Has(u) /\ ~cfg.alts[arr[u].i].nc) /\ CopyAssign(s, u, r) /\ op' = <<"copya", f, n, s, u>>
       \/ (f = "e" => Has(u) /\ ~cfg.alts[arr[u].i].nm) /\ MoveAssign(s, u, r) /\ op' = <<"movea", f, n, s, u>>
       \/ f = "n" /\ Swap(s, u, r, Off, Off) /\ op' = <<"swap", f, n, s, u>>
  \/ f = "n" /\
       \/ Destroy(s, r) /\ op' = <<"dest", f, n, s>>
       \/ \E v \in Vals : Write(s, v, r) /\ op' = <<"write", f, n, s, v>>
       \/ \E j \in Alts : arr[s].on /\ Take(s, j, IF arr[s].i = j THEN "ok" ELSE "bad", arr[s].v) /\ op' = <<"take", f, n, s, j>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

Pairs == {"copynew", "movenew", "copya", "movea", "swap"}
Touched == IF op'[1] \in Pairs THEN {op'[4], op'[5]} ELSE {op'[4]}
FrameOK == [][\A s \in Slots \ Touched : arr'[s] = arr[s]]_View
SourceStays == [][op'[1] \in {"copynew", "movenew", "copya", "movea"} =>
                    LET u == op'[5] IN arr'[u].i = arr[u].i /\ (op'[1] \in {"copynew", "copya"} /\ op'[4] # u => arr'[u] = arr[u])]_View
\* a value is lost only by a failing operation, or by taking over the valueless state
KeepsValue == [][\A s \in Slots : arr[s].i # Lost /\ arr'[s] = Gone =>
                   \/ op'[2] = "e" /\ op'[4] = s
                   \/ op'[1] \in {"copya", "movea", "swap"} /\ Gone \in {arr[op'[4]], arr[op'[5]]}]_View
\* alternatives that never fail never make a variant valueless
NoneLost == (\A j \in Alts : cfg.alts[j] = Trivial) => \A s \in Slots : arr[s] # Gone
\* nothing turns into a different value on its own
NoInvention == [][\A s \in Slots : arr'[s].i # Lost => \/ op'[1] \in {"newv", "emplace", "assign", "write", "take"}
                    \/ \E u \in Slots : arr[u].i = arr'[s].i /\ arr'[s].v \in {arr[u].v, Moved}]_View
=============================================================================
