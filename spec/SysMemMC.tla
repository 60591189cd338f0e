------------------------------ MODULE SysMemMC ------------------------------
(* Exhaustive exploration of SysMem. *)
EXTENDS SysMem, TLC, Json
CONSTANTS Blocks, Sizes, Aligns
VARIABLE op
View == <<cfg, arr>>
Cfgs == {[kind |-> k, exc |-> x, most |-> IF k = "heap" THEN 32 ELSE 16, size |-> 4096] : k \in {"sys", "null", "heap"}, x \in BOOLEAN}
MCInit == /\ cfg \in Cfgs
          /\ arr = Start(Blocks)
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)
Good == [off |-> 0, clash |-> FALSE, held |-> Cardinality({j \in 1..Len(arr') : arr'[j].n >= 0}), kept |-> TRUE]
MCStep ==
  \/ \E b \in 1..Blocks, n \in Sizes, a \in Aligns, s \in BOOLEAN :
       /\ s \/ cfg.kind = "heap"
       /\ arr[b] = None
       /\ LET ok == Possible(n, a, s) IN
          /\ arr' = IF ok THEN [arr EXCEPT ![b] = [n |-> n, a |-> a]] ELSE arr
          /\ Allocate(b, n, a, s, IF ok THEN "ok" ELSE Failed, Good)
       /\ op' = <<"alloc", b, n, a, s>>
  \/ \E b \in 1..Blocks :
       /\ arr[b] # None /\ arr' = [arr EXCEPT ![b] = None]
       /\ Deallocate(b, "ok", Good)
       /\ op' = <<"free", b>>
  \/ \E b \in 1..Blocks, n \in Sizes \ {0}, a \in Aligns :
       /\ arr[b] # None /\ cfg.kind = "sys"
       /\ arr' = IF Possible(n, a, TRUE) THEN [arr EXCEPT ![b] = [n |-> n, a |-> a]] ELSE arr
       /\ op' = <<"realloc", b, n, a>>
  \/ Refuse("null") /\ op' = <<"refuse">>
  \/ Ignore("ok") /\ op' = <<"ignore">>
  \/ Same /\ op' = <<"max">>
  \/ \E o \in {"self", "same", "null", "sys", "mine"} : cfg.kind # "heap" /\ Same /\ op' = <<"eq", o>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)
=============================================================================
