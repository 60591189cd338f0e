-------------------------------- MODULE Func --------------------------------
(* Polymorphic function wrappers: a pool of wrappers, each empty or holding a *)
(* target. A target of a kind with state has an identity v and a flag b that  *)
(* every call flips; a call returns and reports both with its argument.       *)
(*                                                                            *)
(* cfg: pmr, exc as in UVar; big: target kind -> stored in resource memory;   *)
(*      keeps: target kind -> has state of its own                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Slots == DOMAIN arr
Empty == 0
Lost  == -1
Off   == [on |-> FALSE, t |-> Empty, v |-> 0, b |-> 0, mr |-> 0]
Obj(t, v, m) == [on |-> TRUE, t |-> t, v |-> IF t > 0 THEN v ELSE 0, b |-> 0, mr |-> m]
Has(s) == arr[s].on /\ arr[s].t > 0
Same == UNCHANGED arr
Set(s, o) == arr' = [arr EXCEPT ![s] = o]
CanFail(t, r) == (r = "elem" /\ cfg.keeps[t]) \/ (r = "alloc" /\ cfg.big[t])

New(s, m, r) == ~arr[s].on /\ r = "ok" /\ Set(s, Obj(Empty, 0, m))
NewTarget(s, m, t, v, r) ==
  /\ ~arr[s].on
  /\ \/ r = "ok" /\ Set(s, Obj(t, v, m))
     \/ CanFail(t, r) /\ Set(s, IF cfg.exc THEN Off ELSE Obj(Lost, 0, m))
CopyNew(s, u, r) ==
  /\ ~arr[s].on /\ arr[u].on
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ Has(u) /\ CanFail(arr[u].t, r) /\ Set(s, IF cfg.exc THEN Off ELSE Obj(Lost, 0, arr[u].mr))
MoveNew(s, u, r) ==
  /\ ~arr[s].on /\ arr[u].on /\ r = "ok"
  /\ arr' = [arr EXCEPT ![s] = arr[u], ![u] = Obj(Empty, 0, arr[u].mr)]

\* lost: the wrapper is seen to have lost its target after the failure; otherwise it is as before
Store(s, t, v, r, lost) ==
  /\ arr[s].on
  /\ \/ r = "ok" /\ Set(s, Obj(t, v, arr[s].mr))
     \/ CanFail(t, r) /\ IF lost THEN Set(s, Obj(Lost, 0, arr[s].mr)) ELSE r = "elem" /\ Same
CopyAssign(s, u, r) ==
  /\ arr[s].on /\ arr[u].on
  /\ \/ r = "ok" /\ Set(s, arr[u])
     \/ s # u /\ Has(u) /\ CanFail(arr[u].t, r) /\ Set(s, Obj(Lost, 0, arr[u].mr))
MoveAssign(s, u, r) ==
  /\ arr[s].on /\ arr[u].on /\ r = "ok"
  /\ IF s = u THEN Same ELSE arr' = [arr EXCEPT ![s] = arr[u], ![u] = Obj(Empty, 0, arr[u].mr)]
\* whether a side without a target is empty or lost it is not part of what is exchanged: x, y as seen
Like(o, p) == IF p.t > 0 THEN o = p ELSE o \in {Obj(Lost, 0, p.mr), Obj(Empty, 0, p.mr)}
Swap(s, u, r, lx, ly) ==
  /\ arr[s].on /\ arr[u].on /\ r = "ok"
  /\ IF s = u THEN Same
     ELSE arr' = [arr EXCEPT ![s] = IF arr[u].t > 0 THEN arr[u] ELSE Obj(IF lx THEN Lost ELSE Empty, 0, arr[u].mr),
                             ![u] = IF arr[s].t > 0 THEN arr[s] ELSE Obj(IF ly THEN Lost ELSE Empty, 0, arr[s].mr)]
Reset(s, r)      == arr[s].on /\ r = "ok" /\ Set(s, Obj(Empty, 0, arr[s].mr))
ResetMr(s, m, r) == arr[s].on /\ cfg.pmr /\ r = "ok" /\ Set(s, Obj(Empty, 0, m))
Destroy(s, r)    == arr[s].on /\ r = "ok" /\ Set(s, Off)

\* ret: what the caller got; log: the calls that reached any target
Call(s, x, r, ret, log) ==
  /\ arr[s].on
  /\ IF Has(s)
     THEN LET b == IF cfg.keeps[arr[s].t] THEN arr[s].b ELSE 0 IN
          /\ r = "ok" /\ ret = <<arr[s].v, b, x>> /\ log = <<<<arr[s].v, b, x>>>>
          /\ Set(s, [arr[s] EXCEPT !.b = IF cfg.keeps[arr[s].t] THEN 1 - @ ELSE 0])
     ELSE r = "bad" /\ log = <<>> /\ Same

TypeOK == \A s \in Slots : /\ arr[s].t \in {Empty, Lost} \cup 1..Len(cfg.big)
                           /\ arr[s].b \in {0, 1} /\ (arr[s].t <= 0 => arr[s].b = 0)
                           /\ cfg.pmr \/ arr[s].mr = 0
OffIsEmpty == \A s \in Slots : ~arr[s].on => arr[s] = Off
Live(a) == Cardinality({s \in Slots : a[s].on /\ a[s].t > 0 /\ cfg.keeps[a[s].t]})
Blocks(a, m) == Cardinality({s \in Slots : a[s].on /\ a[s].mr = m /\ a[s].t > 0 /\ cfg.big[a[s].t]})
LostAt(a, m) == Cardinality({s \in Slots : a[s].on /\ a[s].mr = m /\ a[s].t = Lost})
=============================================================================
