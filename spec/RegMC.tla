------------------------------- MODULE RegMC --------------------------------
(* All interleavings of calls of several threads. *)
EXTENDS Reg, TLC, Json
CONSTANTS T, Vals, Budget
VARIABLES op, left, ghost
\* ghost: how often each value was stored in each register minus how often a set call took it out
View == <<arr, left>>
V == {Builtin} \cup Vals
MCInit == /\ cfg = 0 /\ arr = Start(T) /\ left = Budget /\ op = <<"init">>
          /\ ghost = [nd |-> [v \in V |-> IF v = Builtin THEN 1 ELSE 0], df |-> [v \in V |-> 0]]
          /\ PrintT(<<"I", ToJson(<<arr, left>>)>>)
Moved(r, in, out) == [ghost EXCEPT ![r] = [v \in V |-> ghost[r][v] + (IF v = in THEN 1 ELSE 0) - (IF v = out THEN 1 ELSE 0)]]
MCStep ==
  \/ \E t \in T, k \in Kinds, a \in V :
       /\ left > 0 /\ (k \in {"getnd", "getdf"} => a = 0)
       /\ arr' \in Invoke(arr, t, k, a) /\ left' = left - 1 /\ op' = <<"inv", t, k, a>> /\ UNCHANGED ghost
  \/ \E t \in T :
       /\ arr' \in Effects(arr, t) /\ UNCHANGED left /\ op' = <<"go", t, arr'.ini>>
       /\ ghost' = LET p == arr.pend[t] q == arr'.pend[t] IN
                   IF arr.df = Unset /\ arr'.df # Unset THEN Moved("df", arr'.df, None)
                   ELSE IF q.ph = 2 /\ p.ph # 2 /\ p.k = "setnd" THEN Moved("nd", arr'.nd, q.x)
                   ELSE IF q.ph = 2 /\ p.ph # 2 /\ p.k = "setdf" THEN Moved("df", arr'.df, q.x)
                   ELSE ghost
  \/ \E t \in T, v \in V : arr' \in Return(arr, t, v) /\ UNCHANGED <<left, ghost>> /\ op' = <<"ret", t>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<arr, left>>), ToJson(op'), ToJson(<<arr', left'>>)>>)

\* no value is lost, duplicated or invented: what is in a register is what was stored and not yet taken out
Conserved ==
  /\ \A v \in V : ghost.nd[v] = IF v = arr.nd THEN 1 ELSE 0
  /\ \A v \in V : ghost.df[v] = IF v = arr.df THEN 1 ELSE 0
TypeOK == arr.nd \in V /\ arr.df \in V \cup {Unset} /\ arr.ini \in V \cup {None}
\* calls on one register leave the other alone
Apart == [][\A t \in T : (op'[1] = "go" /\ op'[2] = t) =>
               /\ arr'.nd # arr.nd => arr.pend[t].k = "setnd"
               /\ arr'.df # arr.df => OnDefault(arr.pend[t])]_<<arr, left>>
=============================================================================
