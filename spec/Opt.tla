-------------------------------- MODULE Opt ---------------------------------
(* Optionals: a pool of objects, each absent, disengaged or holding a value.  *)
(*                                                                            *)
(* cfg: kind  slot -> value type ("t", or "u" which converts to "t")          *)
(*      cc ca copy construction / assignment exist (of "t")                   *)
(*      mc ma move construction / assignment exist                            *)
(*      cv    "u" converts to "t"                                             *)
(*      keep  type -> a value that was moved from is still what it was        *)
(* Outcomes r: "ok", "elem" (an operation of the value failed) or "bad" (a    *)
(* checked read found nothing).                                               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Slots == DOMAIN arr
Moved == -1
Off   == [on |-> FALSE, e |-> FALSE, v |-> 0]
None  == [on |-> TRUE, e |-> FALSE, v |-> 0]
Some(v) == [on |-> TRUE, e |-> TRUE, v |-> v]
T(s) == cfg.kind[s] = "t"
Left(s, v) == IF cfg.keep[cfg.kind[s]] THEN v ELSE Moved
After(s)   == IF arr[s].e THEN Some(Left(s, arr[s].v)) ELSE arr[s]    \* s was moved from

Set(s, o) == arr' = [arr EXCEPT ![s] = o]
Same == UNCHANGED arr

New(s, r)       == ~arr[s].on /\ r = "ok" /\ Set(s, None)
NewVal(s, v, r) == ~arr[s].on /\ IF r = "ok" THEN Set(s, Some(v)) ELSE r = "elem" /\ Same
\* from another optional, of the same or of the convertible type
CopyNew(s, u, r) ==
  /\ ~arr[s].on /\ arr[u].on /\ IF cfg.kind[s] = cfg.kind[u] THEN (T(s) => cfg.cc) ELSE T(s) /\ cfg.cv
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ r = "elem" /\ arr[u].e /\ Same
\* x: what the source of a move that failed holds; a conversion may have taken the value already
Failed(s, u, x) == x \in {arr[u]} \cup (IF cfg.kind[s] = cfg.kind[u] THEN {} ELSE {After(u)}) /\ Set(u, x)
MoveNew(s, u, r, x) ==
  /\ ~arr[s].on /\ arr[u].on /\ IF cfg.kind[s] = cfg.kind[u] THEN (T(s) => cfg.mc) ELSE T(s) /\ cfg.cv
  /\ \/ r = "ok" /\ arr' = [arr EXCEPT ![s] = arr[u], ![u] = After(u)]
     \/ r = "elem" /\ arr[u].e /\ Failed(s, u, x)
\* the value keeps its old state when its own assignment fails
Assign(s, v, r)  == arr[s].on /\ IF r = "ok" THEN Set(s, Some(v)) ELSE r = "elem" /\ Same
Emplace(s, v, r) == arr[s].on /\ IF r = "ok" THEN Set(s, Some(v)) ELSE r = "elem" /\ Set(s, None)
CopyAssign(s, u, r) ==
  /\ arr[s].on /\ arr[u].on /\ IF cfg.kind[s] = cfg.kind[u] THEN (T(s) => cfg.ca) ELSE T(s) /\ cfg.cv
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ r = "elem" /\ arr[u].e /\ Same
MoveAssign(s, u, r, x) ==
  /\ arr[s].on /\ arr[u].on /\ IF cfg.kind[s] = cfg.kind[u] THEN (T(s) => cfg.ma) ELSE T(s) /\ cfg.cv
  /\ s # u
  /\ \/ r = "ok" /\ arr' = [arr EXCEPT ![s] = arr[u], ![u] = After(u)]
     \/ r = "elem" /\ arr[u].e /\ Failed(s, u, x)
\* x, y: what the two sides hold afterwards. A failed exchange leaves both sides as engaged as they were.
Swap(s, u, r, x, y) ==
  /\ arr[s].on /\ arr[u].on /\ cfg.kind[s] = cfg.kind[u] /\ (T(s) => cfg.mc /\ cfg.ma)
  /\ IF s = u THEN IF r = "ok" THEN Same ELSE r = "elem" /\ arr[s].e /\ x.e /\ x.v \in {arr[s].v, Moved} /\ Set(s, Some(x.v))
     ELSE /\ arr' = [arr EXCEPT ![s] = x, ![u] = y]
          /\ \/ r = "ok" /\ x = arr[u] /\ y = arr[s]
             \/ /\ r = "elem" /\ (arr[s].e \/ arr[u].e)
                /\ x.on /\ y.on /\ x.e = arr[s].e /\ y.e = arr[u].e
                /\ x.e => x.v \in {arr[s].v, arr[u].v, Moved}
                /\ y.e => y.v \in {arr[s].v, arr[u].v, Moved}
Reset(s, r)   == arr[s].on /\ r = "ok" /\ Set(s, None)
Destroy(s, r) == arr[s].on /\ r = "ok" /\ Set(s, Off)
Write(s, v, r) == arr[s].e /\ r = "ok" /\ Set(s, Some(v))
\* checked read into another object; moving takes the value out
Take(s, moving, r, ret) ==
  /\ arr[s].on /\ T(s) /\ IF moving THEN cfg.mc ELSE cfg.cc
  /\ IF ~arr[s].e THEN r = "bad" /\ Same
     ELSE \/ r = "ok" /\ ret = arr[s].v /\ IF moving THEN Set(s, After(s)) ELSE Same
          \/ r = "elem" /\ Same
\* with a fallback
TakeOr(s, d, moving, r, ret) ==
  /\ arr[s].on /\ T(s) /\ IF moving THEN cfg.mc ELSE cfg.cc
  /\ \/ r = "ok" /\ ret = (IF arr[s].e THEN arr[s].v ELSE d) /\ IF moving THEN Set(s, After(s)) ELSE Same
     \/ r = "elem" /\ Same

\* -- what must hold ----------------------------------------------------------
TypeOK == \A s \in Slots : arr[s].e => arr[s].on
Plain  == \A s \in Slots : ~arr[s].e => arr[s].v = 0
Live(a) == Cardinality({s \in Slots : a[s].e})
=============================================================================
