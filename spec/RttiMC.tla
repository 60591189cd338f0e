------------------------------- MODULE RttiMC -------------------------------
(* All hierarchies of up to N classes in which every class is in the object. *)
EXTENDS Rtti, TLC, Json
CONSTANT N
VARIABLE op
View == <<cfg, arr>>

Lists(S) == UNION {{q \in [1..k -> S] : \A i, j \in 1..k : i # j => q[i] # q[j]} : k \in 0..Cardinality(S)}
\* forests over 1..n: bases of each class and the classes not used as a base yet
RECURSIVE Forests(_)
Forests(n) == IF n = 0 THEN {[b |-> <<>>, r |-> {}]}
              ELSE UNION {{[b |-> Append(f.b, l), r |-> (f.r \ Range(l)) \cup {n}] : l \in Lists(f.r)} : f \in Forests(n - 1)}
Trees(n) == {f.b : f \in {g \in Forests(n) : g.r = {n}}}

\* one more class is known but not part of the object
MCInit == /\ \E n \in 1..N : \E t \in Trees(n) :
               cfg = [bases |-> Append(t, <<>>), ids |-> [k \in 1..(n + 1) |-> <<k>>], top |-> n]
          /\ arr = Null
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)
All == 1..Len(cfg.bases)
MCStep ==
  \/ \E c \in All : arr = Null /\ Start(c, TRUE) /\ op' = <<"start", c>>
  \/ \E b \in All : Up(b, TRUE) /\ op' = <<"up", b>>
  \/ \E q \in All, k \in {0, 1} : arr # Null /\ Cast(q, q \in Subobjects(cfg.top), {q}) /\ op' = <<"cast", q, k>>
  \/ \E q \in All : Ask(q, q \in Subobjects(cfg.top)) /\ op' = <<"ask", q, 0>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* casting away and back gives the same subobject: every subobject reaches every other in one cast
Connected == arr # Null => \A q \in Subobjects(cfg.top) : ENABLED (arr' = q /\ Cast(q, TRUE, {q}) /\ UNCHANGED <<cfg, op>>)
=============================================================================
