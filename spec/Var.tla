-------------------------------- MODULE Var ---------------------------------
(* Variants: a pool of objects, each absent, valueless or holding a value of  *)
(* one of the alternatives 1..Len(cfg.alts).                                  *)
(*                                                                            *)
(* cfg: alts   alternative -> [nm, nc, keep]: moving it cannot fail, copying  *)
(*             it cannot fail, a value moved from is still what it was        *)
(*      cc ca mc ma  copy/move construction and assignment exist              *)
(* Outcomes r: "ok", "elem" (an operation of a value failed).                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Slots == DOMAIN arr
Alts  == 1..Len(cfg.alts)
Lost  == 0
Moved == -1
Off  == [on |-> FALSE, i |-> Lost, v |-> 0]
Gone == [on |-> TRUE, i |-> Lost, v |-> 0]
Val(j, v) == [on |-> TRUE, i |-> j, v |-> v]
Has(s)    == arr[s].i # Lost
After(s)  == IF Has(s) /\ ~cfg.alts[arr[s].i].keep THEN Val(arr[s].i, Moved) ELSE arr[s]

Set(s, o) == arr' = [arr EXCEPT ![s] = o]
Same == UNCHANGED arr

NewVal(s, j, v, r) == ~arr[s].on /\ IF r = "ok" THEN Set(s, Val(j, v)) ELSE r = "elem" /\ Same
CopyNew(s, u, r) ==
  /\ ~arr[s].on /\ arr[u].on /\ cfg.cc
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ r = "elem" /\ Has(u) /\ ~cfg.alts[arr[u].i].nc /\ Same
MoveNew(s, u, r) ==
  /\ ~arr[s].on /\ arr[u].on /\ cfg.mc
  /\ \/ r = "ok" /\ arr' = [arr EXCEPT ![s] = arr[u], ![u] = After(u)]
     \/ r = "elem" /\ Has(u) /\ ~cfg.alts[arr[u].i].nm /\ Same

Emplace(s, j, v, r) == arr[s].on /\ Set(s, IF r = "ok" THEN Val(j, v) ELSE Gone) /\ r \in {"ok", "elem"}

\* Value assignment to alternative j. nx: making j from the given value cannot fail.
\* A held j is assigned to. Otherwise the new value is made in place when that cannot fail, or when moving it
\* could; else it is made aside and moved in, which keeps the old value if making it fails.
InPlace(j, nx) == nx \/ ~cfg.alts[j].nm
Assign(s, j, v, nx, r) ==
  /\ arr[s].on
  /\ \/ r = "ok" /\ Set(s, Val(j, v))
     \/ r = "elem" /\ Set(s, IF arr[s].i = j \/ ~InPlace(j, nx) THEN arr[s] ELSE Gone)

CopyAssign(s, u, r) ==
  /\ arr[s].on /\ arr[u].on /\ cfg.ca
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ r = "elem" /\ Has(u) /\
          Set(s, IF arr[s].i = arr[u].i \/ ~InPlace(arr[u].i, cfg.alts[arr[u].i].nc) THEN arr[s] ELSE Gone)

MoveAssign(s, u, r) ==
  /\ arr[s].on /\ arr[u].on /\ cfg.ma /\ s # u
  /\ \/ r = "ok" /\ arr' = [arr EXCEPT ![s] = arr[u], ![u] = After(u)]
     \/ r = "elem" /\ Has(u) /\ Set(s, IF arr[s].i = arr[u].i THEN arr[s] ELSE Gone)

\* x, y: what the two sides hold afterwards. A failed exchange of equal alternatives leaves both alternatives in
\* place, one of different alternatives may have lost either.
Part(o) == o.on /\ (o = Gone \/ \E w \in Slots : arr[w].on /\ o.i = arr[w].i /\ o.v \in {arr[w].v, Moved})
Swap(s, u, r, x, y) ==
  /\ arr[s].on /\ arr[u].on /\ cfg.mc /\ cfg.ma
  /\ \/ r = "ok" /\ arr' = [arr EXCEPT ![s] = arr[u], ![u] = arr[s]]
     \/ /\ r = "elem" /\ (Has(s) \/ Has(u))
        /\ arr' = [arr EXCEPT ![s] = x, ![u] = y]
        /\ Part(x) /\ Part(y)
        /\ arr[s].i = arr[u].i => x.i = arr[s].i /\ y.i = arr[s].i

Destroy(s, r)  == arr[s].on /\ r = "ok" /\ Set(s, Off)
Write(s, v, r) == Has(s) /\ r = "ok" /\ Set(s, Val(arr[s].i, v))
\* checked read of alternative j, moving the value out
Take(s, j, r, ret) ==
  /\ arr[s].on /\ cfg.mc
  /\ IF arr[s].i # j THEN r = "bad" /\ Same
     ELSE \/ r = "ok" /\ ret = arr[s].v /\ Set(s, After(s))
          \/ r = "elem" /\ Same

\* -- what must hold ----------------------------------------------------------
TypeOK  == \A s \in Slots : arr[s].i \in Alts \cup {Lost} /\ (~arr[s].on => arr[s] = Off)
Live(a, counted) == Cardinality({s \in Slots : a[s].i # Lost /\ counted[a[s].i]})
=============================================================================
