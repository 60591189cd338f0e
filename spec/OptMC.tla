-------------------------------- MODULE OptMC -------------------------------
(* Exhaustive exploration of Opt inside small bounds. *)
EXTENDS Opt, TLC, Json
CONSTANTS Kinds, Vals, Faults, Cfgs
VARIABLE op
View == <<cfg, arr>>

C(cc, ca, ma, cv, kt) == [kind |-> Kinds, cc |-> cc, ca |-> ca, mc |-> TRUE, ma |-> ma, cv |-> cv,
                          keep |-> [t |-> kt, u |-> FALSE]]
AllCfgs == {C(TRUE, TRUE, TRUE, TRUE, TRUE), C(TRUE, TRUE, TRUE, TRUE, FALSE), C(FALSE, FALSE, TRUE, TRUE, FALSE),
            C(TRUE, FALSE, FALSE, FALSE, TRUE)}
TTU  == <<"t", "t", "u">>
TTTU == <<"t", "t", "t", "u">>
Two == {0, 1}
AllFaults == {"n", "e"}
Small == \A s \in Slots : T(s) \/ arr[s].v \in {0, Moved}

MCInit == /\ cfg \in Cfgs
          /\ arr = [s \in DOMAIN Kinds |-> Off]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

MCStep ==
  \E s \in Slots, f \in Faults :
  LET r == IF f = "n" THEN "ok" ELSE "elem" n == IF f = "n" THEN 0 ELSE 1 IN
  \/ f = "n" /\ New(s, r) /\ op' = <<"newd", f, n, s>>
  \/ \E v \in Vals : \/ NewVal(s, v, r) /\ op' = <<"newv", f, n, s, v>>
                     \/ Assign(s, v, r) /\ op' = <<"assign", f, n, s, v>>
                     \/ Emplace(s, v, r) /\ op' = <<"emplace", f, n, s, v>>
                     \/ f = "n" /\ Write(s, v, r) /\ op' = <<"write", f, n, s, v>>
  \/ \E u \in Slots :
       \/ CopyNew(s, u, r) /\ op' = <<"copynew", f, n, s, u>>
       \/ MoveNew(s, u, r, arr[u]) /\ op' = <<"movenew", f, n, s, u>>
       \/ CopyAssign(s, u, r) /\ op' = <<"copya", f, n, s, u>>
       \/ MoveAssign(s, u, r, arr[u]) /\ op' = <<"movea", f, n, s, u>>
       \/ T(s) /\ Swap(s, u, r, IF r = "ok" THEN arr[u] ELSE arr[s], IF r = "ok" THEN arr[s] ELSE arr[u])
            /\ op' = <<"swap", f, n, s, u>>
  \/ f = "n" /\
       \/ Reset(s, r) /\ op' = <<"reset", f, n, s>>
       \/ Destroy(s, r) /\ op' = <<"dest", f, n, s>>
       \/ \E m \in BOOLEAN : arr[s].on /\ Take(s, m, IF arr[s].e THEN "ok" ELSE "bad", arr[s].v) /\ op' = <<"take", f, n, s, m>>
       \/ \E m \in BOOLEAN : TakeOr(s, 7, m, r, IF arr[s].e THEN arr[s].v ELSE 7) /\ op' = <<"takeor", f, n, s, m>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

Pairs == {"copynew", "movenew", "copya", "movea", "swap"}
Touched == IF op'[1] \in Pairs THEN {op'[4], op'[5]} ELSE {op'[4]}
FrameOK == [][\A s \in Slots \ Touched : arr'[s] = arr[s]]_View
\* neither copying nor moving disengages the source; copying leaves it as it was
SourceStays == [][op'[1] \in {"copynew", "movenew", "copya", "movea"} =>
                    LET u == op'[5] IN arr'[u].e = arr[u].e /\ (op'[1] \in {"copynew", "copya"} => arr'[u] = arr[u])]_View
\* only resetting, failing to emplace, destroying or taking over "nothing" loses a value
KeepsValue == [][\A s \in Slots : arr[s].e /\ ~arr'[s].e =>
                   \/ op'[1] \in {"reset", "dest"}
                   \/ op'[1] = "emplace" /\ op'[2] = "e"
                   \/ op'[1] \in {"copya", "movea", "swap"} /\ (~arr[op'[5]].e \/ ~arr[op'[4]].e)]_View
=============================================================================
