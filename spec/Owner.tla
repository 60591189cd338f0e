------------------------------- MODULE Owner --------------------------------
(* Owning pointers over memory resources: a pool of owners of one family, the *)
(* objects they hold, and one pointer released by an owner.                   *)
(*                                                                            *)
(* cfg: fam      1, 2 interface pointers (two interfaces of every class),     *)
(*               3 unique pointer made by the factory, 4 the same deleter     *)
(*               over several objects, 5 plain memory with the resource deleter *)
(*      nullfail a resource that fails gives null (otherwise it throws)       *)
(*      throws   a constructor may throw                                      *)
(*      size, align, n  of an object kind: bytes of one object, its alignment, *)
(*               number of objects in one block; cls: its class               *)
(* Every step carries the log of what reached the resources and the objects:  *)
(*   <<"a", id, res, bytes, align>>  block id obtained     <<"f", 0, ...>> refused *)
(*   <<"c", id, i, class, 0>> object i of the block constructed                *)
(*   <<"x", id, i, class, 0>> destroyed through its own class                  *)
(*   <<"d", id, res, bytes, align>>  block returned                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Slots == DOMAIN arr.own
NoDel == [k |-> 0, m |-> 0]
Off   == [on |-> FALSE, id |-> 0, del |-> NoDel]
Held(id, d) == [on |-> TRUE, id |-> id, del |-> d]
Gone  == [on |-> FALSE, k |-> 0, m |-> 0, v |-> 0]
NoRaw == [id |-> 0, del |-> NoDel]
IsObj == cfg.fam # 5
On(s) == arr.own[s].on
Bytes(k) == cfg.size[k] * cfg.n[k]
Each(w, id, k) == IF IsObj THEN [i \in 1..cfg.n[k] |-> <<w, id, i, cfg.cls[k], 0>>] ELSE <<>>
Refused(k, m)   == <<"f", 0, m, Bytes(k), cfg.align[k]>>
Obtained(id, k, m) == <<"a", id, m, Bytes(k), cfg.align[k]>>
Returned(id, k, m) == <<"d", id, m, Bytes(k), cfg.align[k]>>
BirthLog(id, k, m) == <<Obtained(id, k, m)>> \o Each("c", id, k)
\* the end of an object: all destructors in any order, then the memory
Death(log, id) ==
  IF id = 0 THEN log = <<>>
  ELSE LET o == arr.obj[id]
           x == Each("x", id, o.k) IN
       /\ Len(log) = Len(x) + 1
       /\ log[Len(log)] = Returned(id, o.k, o.m)
       /\ \A i \in 1..Len(x) : \E j \in 1..Len(x) : log[j] = x[i]
Split(log, n) == SubSeq(log, n + 1, Len(log))
Begins(log, p) == Len(log) >= Len(p) /\ SubSeq(log, 1, Len(p)) = p
Without(id) == IF id = 0 THEN arr.obj ELSE [arr.obj EXCEPT ![id] = Gone]
Fresh(id) == id \in DOMAIN arr.obj /\ ~arr.obj[id].on

\* s gets the new object (id 0: a null owner); what it held before ends afterwards
Made(s, k, m, v, id, log, own, obj) ==
  LET p == IF id = 0 THEN <<Refused(k, m)>> ELSE BirthLog(id, k, m) IN
  /\ Begins(log, p)
  /\ Death(Split(log, Len(p)), arr.own[s].id)
  /\ own = [arr.own EXCEPT ![s] = Held(id, [k |-> k, m |-> m])]
  /\ obj = IF id = 0 THEN Without(arr.own[s].id)
           ELSE [Without(arr.own[s].id) EXCEPT ![id] = [on |-> TRUE, k |-> k, m |-> m, v |-> v]]
\* over: assigned to an existing owner
Make(s, k, m, v, over, r, id, log) ==
  /\ On(s) = over
  /\ \/ /\ r = "ok" /\ Fresh(id)
        /\ \E own \in {[arr.own EXCEPT ![s] = Held(id, [k |-> k, m |-> m])]} :
             \E obj \in {[Without(arr.own[s].id) EXCEPT ![id] = [on |-> TRUE, k |-> k, m |-> m, v |-> v]]} :
               Made(s, k, m, v, id, log, own, obj) /\ arr' = [arr EXCEPT !.own = own, !.obj = obj]
     \/ /\ r = "null" /\ cfg.nullfail
        /\ LET own == [arr.own EXCEPT ![s] = Held(0, [k |-> k, m |-> m])]
               obj == Without(arr.own[s].id) IN
           Made(s, k, m, v, 0, log, own, obj) /\ arr' = [arr EXCEPT !.own = own, !.obj = obj]
     \/ r = "alloc" /\ ~cfg.nullfail /\ log = <<Refused(k, m)>> /\ UNCHANGED arr
     \/ /\ r = "elem" /\ IsObj /\ cfg.throws /\ cfg.fam # 4 /\ Fresh(id)
        /\ log = <<Obtained(id, k, m), Returned(id, k, m)>>
        /\ UNCHANGED arr
NewEmpty(s, log) == ~On(s) /\ cfg.fam \in {1, 2} /\ log = <<>> /\ arr' = [arr EXCEPT !.own[s] = Held(0, NoDel)]

\* a moved-from owner holds nothing; its deleter is gone unless deleters are copied
Left(o) == Held(0, IF cfg.fam \in {1, 2, 5} THEN NoDel ELSE o.del)
\* moving a resource deleter that was moved from is refused by an assertion
Movable(u) == On(u) /\ (cfg.fam = 5 => arr.own[u].del # NoDel)
MoveNew(s, u, log) ==
  /\ ~On(s) /\ Movable(u) /\ log = <<>>
  /\ arr' = [arr EXCEPT !.own[s] = arr.own[u], !.own[u] = Left(arr.own[u])]
MoveAssign(s, u, log) ==
  /\ On(s) /\ Movable(u)
  /\ IF s = u THEN log = <<>> /\ UNCHANGED arr
     ELSE /\ Death(log, arr.own[s].id)
          /\ arr' = [arr EXCEPT !.own[s] = arr.own[u], !.own[u] = Left(arr.own[u]), !.obj = Without(arr.own[s].id)]
Swap(s, u, log) ==
  /\ Movable(s) /\ Movable(u) /\ log = <<>>
  /\ arr' = [arr EXCEPT !.own[s] = arr.own[u], !.own[u] = arr.own[s]]
Reset(s, log) ==
  /\ On(s) /\ Death(log, arr.own[s].id)
  /\ arr' = [arr EXCEPT !.own[s].id = 0, !.obj = Without(arr.own[s].id)]
Release(s, log) ==
  /\ On(s) /\ arr.own[s].id # 0 /\ arr.raw = NoRaw /\ log = <<>>
  /\ arr' = [arr EXCEPT !.own[s].id = 0, !.raw = [id |-> arr.own[s].id, del |-> arr.own[s].del]]
\* the released pointer goes back to an owner with the deleter for it
Put(s, log) ==
  /\ On(s) /\ arr.raw.id # 0 /\ arr.own[s].del = arr.raw.del
  /\ Death(log, arr.own[s].id)
  /\ arr' = [arr EXCEPT !.own[s].id = arr.raw.id, !.raw = NoRaw, !.obj = Without(arr.own[s].id)]
\* or to a new owner with a copy of its deleter
Adopt(s, log) ==
  /\ ~On(s) /\ arr.raw.id # 0 /\ log = <<>>
  /\ arr' = [arr EXCEPT !.own[s] = Held(arr.raw.id, arr.raw.del), !.raw = NoRaw]
Destroy(s, log) ==
  /\ On(s) /\ Death(log, arr.own[s].id)
  /\ arr' = [arr EXCEPT !.own[s] = Off, !.obj = Without(arr.own[s].id)]

\* what an observer sees of an owner: the object, its value, and the memory a resource deleter names
See(o, obj) ==
  IF ~o.on THEN <<-1, 0, 0, 0, 0>>
  ELSE LET id == o.id IN
       <<id, IF id = 0 THEN 0 ELSE obj[id].v>> \o
       (IF cfg.fam # 5 \/ o.del = NoDel THEN <<0, 0, 0>> ELSE <<o.del.m, Bytes(o.del.k), cfg.align[o.del.k]>>)
View1(a) == [s \in DOMAIN a.own |-> See(a.own[s], a.obj)]

-----------------------------------------------------------------------------
Holders(id) == Cardinality({s \in Slots : arr.own[s].on /\ arr.own[s].id = id}) + (IF arr.raw.id = id THEN 1 ELSE 0)
\* every object has exactly one holder, and the holder has the deleter that fits it
OwnedOnce == \A id \in DOMAIN arr.obj : IF arr.obj[id].on THEN Holders(id) = 1 ELSE Holders(id) = 0
DeleterFits ==
  /\ \A s \in Slots : LET o == arr.own[s] IN o.id # 0 => o.del = [k |-> arr.obj[o.id].k, m |-> arr.obj[o.id].m]
  /\ arr.raw.id # 0 => arr.raw.del = [k |-> arr.obj[arr.raw.id].k, m |-> arr.obj[arr.raw.id].m]
=============================================================================
