----------------------------- MODULE PolyAlloc ------------------------------
(* Polymorphic allocators: memory from the allocator's own resource, objects  *)
(* told the allocator when and how their type wants it.                       *)
(*                                                                            *)
(* cfg.eq: class of each resource (equal resources share one); cfg.size,      *)
(* cfg.align: of each element type; cfg.max: what the resources say they can  *)
(* give. arr.al: resource of each allocator. arr.blk: blocks, [r, t, n]:      *)
(* resource, element type, count; r = 0: none.                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

NoBlock == [r |-> 0, t |-> 0, n |-> 0]
Start(al, k) == [al |-> al, blk |-> [j \in 1..k |-> NoBlock]]
Same == UNCHANGED arr

\* -- memory --------------------------------------------------------------------------------------------------------
\* counts: -1 the most that can be addressed, -2 one more. calls: what the resources were asked,
\* [op, r, bytes, align, exact]; bytes: -1 if not a small number, exact: it was count times the size
Asked(calls, op, r, t, n) ==
  /\ Len(calls) = 1
  /\ LET c == calls[1] IN /\ c.op = op /\ c.r = r /\ c.align = cfg.align[t] /\ c.exact
                          /\ c.bytes = IF n < 0 THEN -1 ELSE n * cfg.size[t]
\* fail: what the resource does: "ok", "null", "throw"
Outcome(fail) == IF fail = "throw" THEN "bad" ELSE IF fail = "null" THEN "null" ELSE "ok"
Allocate(a, b, t, n, fail, r, calls) ==
  /\ arr.blk[b].r = 0
  /\ IF n = -2 THEN r = "length" /\ calls = <<>> /\ Same
     ELSE /\ Asked(calls, "alloc", arr.al[a], t, n)
          /\ r = Outcome(IF n = -1 THEN "throw" ELSE fail)
          /\ IF r = "ok" THEN arr' = [arr EXCEPT !.blk[b] = [r |-> arr.al[a], t |-> t, n |-> n]] ELSE Same
Deallocate(a, b, r, calls) ==
  LET k == arr.blk[b] IN
  /\ k.r # 0 /\ cfg.eq[k.r] = cfg.eq[arr.al[a]]
  /\ r = "ok" /\ Asked(calls, "free", arr.al[a], k.t, k.n)
  /\ arr' = [arr EXCEPT !.blk[b] = NoBlock]
\* was: the old count the resource was told
Reallocate(a, b, n, fail, r, calls) ==
  LET k == arr.blk[b] IN
  /\ k.r # 0 /\ cfg.eq[k.r] = cfg.eq[arr.al[a]]
  /\ IF n = -2 THEN r = "length" /\ calls = <<>> /\ Same
     ELSE /\ Asked(calls, "realloc", arr.al[a], k.t, n)
          /\ calls[1].was = k.n * cfg.size[k.t]
          /\ r = Outcome(IF n = -1 THEN "throw" ELSE fail)
          /\ IF r = "ok" THEN arr' = [arr EXCEPT !.blk[b].n = n] ELSE Same
MaxSize(a, t, ret) == Same /\ ret = cfg.max[arr.al[a]] \div cfg.size[t]

\* -- allocators ----------------------------------------------------------------------------------------------------
Copy(s, d) == arr' = [arr EXCEPT !.al[d] = arr.al[s]]
Make(d, r) == arr' = [arr EXCEPT !.al[d] = r]
Equality(s, d, eq, ne) == Same /\ eq = (cfg.eq[arr.al[s]] = cfg.eq[arr.al[d]]) /\ ne = ~eq

\* -- objects -------------------------------------------------------------------------------------------------------
\* kinds: no: takes no allocator; lead, trail: takes it first, last; both: can take it either way; mix: first when there is
\* nothing else, otherwise last; picky: last, but only from an allocator of element type 2
Form(k, t, n) ==
  CASE k = "no" -> "none"
    [] k = "lead" -> "lead"
    [] k = "trail" -> "trail"
    [] k = "both" -> "lead"
    [] k = "mix" -> IF n = 0 THEN "lead" ELSE "trail"
    [] k = "picky" -> IF t = 2 THEN "trail" ELSE "none"
\* arguments: [c, v]: category l, cl, r and value; the value Bomb makes the constructor throw
Bomb == 99
Bad(args) == \E j \in 1..Len(args) : args[j].v = Bomb
\* got: what the object saw: [form, res, args]; res: resource of the allocator it was told, 0: none
Saw(g, a, k, t, args) ==
  LET f == Form(k, t, Len(args)) IN
  /\ g.form = f
  /\ g.res = IF f = "none" THEN 0 ELSE arr.al[a]
  /\ Len(g.args) = Len(args)
  /\ \A j \in 1..Len(args) : g.args[j].v = args[j].v /\ g.args[j].c \in (IF args[j].c = "any" THEN {"l", "cl"} ELSE {args[j].c})
\* log: what each object constructed saw, in order; whole: the objects are all there; alive: objects alive afterwards
Construct(a, t, k, args, r, log, whole, alive) ==
  /\ Same
  /\ Len(log) = 1 /\ Saw(log[1], a, k, t, args)
  /\ IF Bad(args) THEN r = "err" /\ alive = 0 ELSE r = "ok" /\ whole /\ alive = 1
\* how: what the arguments of the two halves were in
Passed(how, args) ==
  [j \in 1..Len(args) |-> [v |-> args[j].v,
                           c |-> CASE how \in {"two", "refs"} -> args[j].c
                                   [] how \in {"vals", "rpair"} -> "r"
                                   [] how = "cpair" -> "cl"
                                   [] how = "lpair" -> "any"]]
ConstructPair(a, t, k1, k2, how, x, y, r, log, whole, alive) ==
  /\ Same
  /\ LET p == Passed(how, x) q == Passed(how, y) IN
     IF Bad(x) THEN Len(log) = 1 /\ Saw(log[1], a, k1, t, p) /\ r = "err" /\ alive = 0
     ELSE /\ Len(log) = 2 /\ Saw(log[1], a, k1, t, p) /\ Saw(log[2], a, k2, t, q)
          /\ IF Bad(y) THEN r = "err" /\ alive = 0 ELSE r = "ok" /\ whole /\ alive = 2
\* a class derived from a pair is not a pair: whatever is in it is not told
ConstructDerived(a, t, k1, k2, x, y, r, log, whole, alive) ==
  /\ Same
  /\ Len(log) = 2
  /\ log[1].form = "none" /\ log[2].form = "none" /\ log[1].res = 0 /\ log[2].res = 0
  /\ Len(log[1].args) = 1 /\ log[1].args[1].v = x[1].v /\ log[1].args[1].c = x[1].c
  /\ Len(log[2].args) = 1 /\ log[2].args[1].v = y[1].v /\ log[2].args[1].c = y[1].c
  /\ r = "ok" /\ whole /\ alive = 2

TypeOK == /\ \A j \in 1..Len(arr.al) : arr.al[j] \in 1..Len(cfg.eq)
          /\ \A j \in 1..Len(arr.blk) : arr.blk[j].r \in 0..Len(cfg.eq)
=============================================================================
