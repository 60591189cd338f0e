-------------------------------- MODULE UVar --------------------------------
(* Type-erased variants: a pool of objects, each empty, valueless or holding  *)
(* one value of one of a few types, some with a memory resource attached.     *)
(*                                                                            *)
(* cfg: pmr   memory resources are in use                                     *)
(*      exc   failures are reported as exceptions                             *)
(*      cp/mv variants can be copied / moved                                  *)
(*      big   type -> it is stored in memory of the resource                  *)
(*      bases type -> other types a stored value can be read as               *)
(* Every action takes the outcome r the caller saw: "ok", "alloc" (no memory) *)
(* or "elem" (an operation of the value itself failed).                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Slots == DOMAIN arr
Empty == 0
Lost  == -1                     \* valueless by exception
Moved == -1                     \* value of an object that was moved from
Off   == [on |-> FALSE, t |-> Empty, v |-> 0, mr |-> 0]
Obj(t, v, m) == [on |-> TRUE, t |-> t, v |-> IF t > 0 THEN v ELSE 0, mr |-> m]

Has(s)  == arr[s].on /\ arr[s].t > 0
Sat(t)  == IF t > 0 THEN {t} \cup {cfg.bases[t][k] : k \in 1..Len(cfg.bases[t])} ELSE {}
InRes(s) == Has(s) /\ cfg.big[arr[s].t]

Same == UNCHANGED arr
Set(s, o) == arr' = [arr EXCEPT ![s] = o]
Fails == {"alloc", "elem"}

\* a value that does not live in the memory of a resource needs no allocation
CanFail(t, r) == r = "elem" \/ (r = "alloc" /\ cfg.big[t])

New(s, m, r) == ~arr[s].on /\ r = "ok" /\ Set(s, Obj(Empty, 0, m))

\* a construction that failed leaves no object, or without exceptions a valueless one
NewVal(s, m, t, v, r) ==
  /\ ~arr[s].on
  /\ \/ r = "ok" /\ Set(s, Obj(t, v, m))
     \/ CanFail(t, r) /\ Set(s, IF cfg.exc THEN Off ELSE Obj(Lost, 0, m))

CopyNew(s, u, r) ==
  /\ ~arr[s].on /\ arr[u].on /\ cfg.cp
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ Has(u) /\ CanFail(arr[u].t, r) /\ Set(s, IF cfg.exc THEN Off ELSE Obj(Lost, 0, arr[u].mr))

MoveNew(s, u, r) ==
  /\ ~arr[s].on /\ arr[u].on /\ cfg.mv /\ r = "ok"
  /\ arr' = [arr EXCEPT ![s] = arr[u], ![u] = Obj(Empty, 0, arr[u].mr)]

\* value assignment and emplacement; the old value is gone in any case
Store(s, t, v, r) ==
  /\ arr[s].on
  /\ \/ r = "ok" /\ Set(s, Obj(t, v, arr[s].mr))
     \/ CanFail(t, r) /\ Set(s, Obj(Lost, 0, arr[s].mr))

CopyAssign(s, u, r) ==
  /\ arr[s].on /\ arr[u].on /\ cfg.cp
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ s # u /\ Has(u) /\ CanFail(arr[u].t, r) /\ Set(s, Obj(Lost, 0, arr[u].mr))

MoveAssign(s, u, r) ==
  /\ arr[s].on /\ arr[u].on /\ cfg.mv /\ r = "ok"
  /\ IF s = u THEN Same ELSE arr' = [arr EXCEPT ![s] = arr[u], ![u] = Obj(Empty, 0, arr[u].mr)]

\* x, y: what the two sides are seen to hold afterwards. Whether a side without a value is empty or
\* has lost its value is not part of what is exchanged.
Like(o, p) == o.on /\ o.mr = p.mr /\ IF p.t > 0 THEN o = p ELSE o.t \in {Lost, Empty} 
Swap(s, u, r, x, y) ==
  /\ arr[s].on /\ arr[u].on /\ (cfg.cp \/ cfg.mv)
  /\ IF s = u THEN r = "ok" /\ Same
     ELSE /\ arr' = [arr EXCEPT ![s] = x, ![u] = y]
          /\ \/ r = "ok" /\ Like(x, arr[u]) /\ Like(y, arr[s])
             \/ /\ ~cfg.mv /\ \E w \in {s, u} : Has(w) /\ CanFail(arr[w].t, r)
                /\ \A o \in {x, y} : o.on /\ o.mr \in {arr[s].mr, arr[u].mr} /\
                     (o.t \in {Lost, Empty} \/ \E w \in {s, u} : o.t = arr[w].t /\ o.v = arr[w].v)

Reset(s, r)      == arr[s].on /\ r = "ok" /\ Set(s, Obj(Empty, 0, arr[s].mr))
ResetMr(s, m, r) == arr[s].on /\ cfg.pmr /\ r = "ok" /\ Set(s, Obj(Empty, 0, m))
Destroy(s, r)    == arr[s].on /\ r = "ok" /\ Set(s, Off)

\* writing through a pointer to the held value
Write(s, v, r) == Has(s) /\ r = "ok" /\ Set(s, [arr[s] EXCEPT !.v = v])

\* checked read; how = "move" takes the value out and leaves a moved-from object
Get(s, q, how, r, ret) ==
  /\ arr[s].on
  /\ IF q \in Sat(arr[s].t)
     THEN /\ r = "ok" /\ ret = arr[s].v
          /\ IF how = "move" THEN Set(s, [arr[s] EXCEPT !.v = Moved]) ELSE Same
     ELSE r = "bad" /\ Same

\* -- what must hold ----------------------------------------------------------
TypeOK == \A s \in Slots : /\ arr[s].t \in {Empty, Lost} \cup 1..Len(cfg.big)
                           /\ cfg.pmr \/ arr[s].mr = 0
OffIsEmpty == \A s \in Slots : ~arr[s].on => arr[s] = Off
Live(a) == Cardinality({s \in Slots : a[s].on /\ a[s].t > 0})
Blocks(a, m) == Cardinality({s \in Slots : a[s].on /\ a[s].mr = m /\ a[s].t > 0 /\ cfg.big[a[s].t]})
LostAt(a, m) == Cardinality({s \in Slots : a[s].on /\ a[s].mr = m /\ a[s].t = Lost})
=============================================================================
