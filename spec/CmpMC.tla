-------------------------------- MODULE CmpMC -------------------------------
(* Exhaustive exploration of Cmp inside small bounds. *)
EXTENDS Cmp, TLC, Json
CONSTANTS Kinds, Vals
VARIABLE op
View == <<cfg, arr>>

Tab(F(_, _, _, _)) == [o \in Ops |-> [p \in 1..4 |-> [v \in 1..3 |-> [w \in 1..3 |-> F(o, p, v - 1, w - 1)]]]]
Natural(o, p, v, w) == Ranks(o, v, w)
\* value 2 is unordered: it differs from everything, itself included
Partial(o, p, v, w) == IF v = 2 \/ w = 2 THEN o = 2 ELSE Ranks(o, v, w)
\* no law at all
Lawless(o, p, v, w) == (o * o + 3 * p + v * w + 2 * v + w) % 3 = 0
Cfg(k, t, name) == [kind |-> k, altt |-> <<1, 0, 2, 1>>, tab |-> t, name |-> name]
AllCfgs == {Cfg(k, Tab(Natural), "natural") : k \in Kinds} \cup {Cfg(k, Tab(Partial), "partial") : k \in Kinds}
           \cup {Cfg(k, Tab(Lawless), "lawless") : k \in Kinds}
Small == {<<1, 2, 1>>, <<0, 0>>}
Large == {<<1, 2, 1, 2>>, <<0, 0, 0>>, <<1, 0, 2, 0>>}
Three == 0..2

MCInit == /\ cfg \in AllCfgs
          /\ arr = [s \in 1..Len(cfg.kind) |-> [i |-> 0, v |-> 0]]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

\* k: which operators the values have; f: optional with optional, with value, value with optional; t: the values are of two types
MCStep ==
  \/ \E k \in 0..8, f \in 1..3, t \in 0..1 : Has(<<>>, <<>>) /\ (\A s \in Slots : arr[s].i = 0) /\ op' = <<"has", k, f, t>>
  \/ \E s \in Slots :
     \/ \E i \in 1..4, v \in Vals : Put(s, i, v) /\ op' = <<"put", s, i, v>>
     \/ Clear(s) /\ op' = <<"clear", s>>
     \/ \E u \in Slots : Comparable(s, u) /\ UNCHANGED arr /\ op' = <<"cmp", s, u>>
     \/ \E t \in 1..2, v \in Vals : cfg.kind[s] # 0 /\ UNCHANGED arr /\ op' = <<"cmpv", s, t, v>>
     \/ cfg.kind[s] # 0 /\ UNCHANGED arr /\ op' = <<"cmpn", s>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)
ComparingChangesNothing == [][op'[1] \in {"cmp", "cmpv", "cmpn", "has"} => UNCHANGED arr]_View
=============================================================================
