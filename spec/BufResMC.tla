------------------------------ MODULE BufResMC ------------------------------
EXTENDS BufRes, TLC, Json
CONSTANTS MaxIds, Sizes, Aligns, Cfgs
VARIABLE op
vars == <<cfg, blocks, op>>
View == <<cfg, blocks>>

MCInit == /\ cfg \in Cfgs
          /\ blocks = NoBlocks
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, blocks>>)>>)

FreshId == IF Ids = 1..Cardinality(Ids) THEN Cardinality(Ids) + 1
           ELSE CHOOSE x \in 1..MaxIds : x \notin Ids /\ \A y \in 1..(x-1) : y \in Ids

MCNext ==
  \/ /\ Cardinality(Ids) < MaxIds
     /\ \E sz \in Sizes, al \in Aligns, f \in BOOLEAN, r \in {"ok", "fail"} :
          \/ Alloc(FreshId, sz, al, AlignOff(al), f, r) /\ op' = <<"alloc", FreshId, sz, al, f>>
          \/ ReallocNull(FreshId, sz, al, AlignOff(al), f, r) /\ op' = <<"rnull", FreshId, sz, al, f>>
  \/ \E id \in Ids : Dealloc(id) /\ op' = <<"dealloc", id>>
  \/ \E id \in Ids, sz \in Sizes, f \in BOOLEAN, r \in {"ok", "fail"} :
       Realloc(id, sz, f, r) /\ op' = <<"realloc", id, sz, f>>

MCSizes  == {1, 24, 40, 41}
MCAligns == {1, 16}
MCCfgs   == {[size |-> 40, base |-> 0, upmax |-> 40, uprealloc |-> TRUE],
             [size |-> 40, base |-> 1, upmax |-> 41, uprealloc |-> FALSE],
             [size |-> 24, base |-> 8, upmax |-> 0, uprealloc |-> TRUE],
             [size |-> 0, base |-> 0, upmax |-> 41, uprealloc |-> TRUE]}

Spec == MCInit /\ [][MCNext]_vars

Emit == PrintT(<<"E", ToJson(<<cfg, blocks>>), ToJson(op'), ToJson(<<cfg', blocks'>>)>>)

\* a failed call changes nothing; a granted one never takes a block away from another owner
OthersKept == [][\A b \in Ids : (b \in DOMAIN blocks' /\ op'[2] # b) => blocks'[b] = blocks[b]]_vars
=============================================================================
