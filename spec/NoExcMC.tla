------------------------------ MODULE NoExcMC -------------------------------
(* Exhaustive exploration of NoExc inside small bounds. *)
EXTENDS NoExc, TLC, Json
CONSTANTS Vals
VARIABLE op
View == <<cfg, arr>>
MCInit == /\ \E c \in Comps : cfg = [comp |-> c]
          /\ arr = [s \in Slots |-> IF cfg.comp = "var" THEN [t |-> 1, v |-> 0] ELSE [t |-> 0, v |-> 0]]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)
Out(s, e, t) == [end |-> ~Allowed(s, e, t), v |-> IF Allowed(s, e, t) THEN Gives(s, e, t) ELSE 0]
MCStep ==
  \E s \in Slots :
  \/ \E t \in Kinds, v \in Vals : Put(s, t, v) /\ op' = <<"put", s, t, v>>
  \/ Clear(s) /\ op' = <<"clear", s>>
  \/ \E d \in Slots : \/ Copy(s, d) /\ op' = <<"copy", s, d>>
                      \/ Move(s, d) /\ op' = <<"move", s, d>>
                      \/ s <= d /\ Swap(s, d) /\ op' = <<"swap", s, d>>
  \/ \E e \in Reads, t \in Wanted : Read(s, e, t, Out(s, e, t)) /\ op' = <<"read", s, e, t>>
  \/ \E e \in Asks, t \in Wanted : UNCHANGED arr /\ op' = <<"ask", s, e, t>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)
ReadingChangesNothing == [][op'[1] \in {"read", "ask"} => UNCHANGED arr]_View
=============================================================================
