---------------------------- MODULE PolyAllocMC -----------------------------
(* Exhaustive exploration of PolyAlloc. *)
EXTENDS PolyAlloc, TLC, Json
CONSTANTS Types, Small, Blocks
Counts == Small \cup {-1, -2}
VARIABLE op
View == <<cfg, arr>>
MCInit == /\ cfg = [eq |-> <<1, 2, 2>>, size |-> <<1, 4, 12, 32>>, align |-> <<1, 4, 4, 32>>, max |-> <<100, 1000, 1000>>]
          /\ arr = Start(<<1, 2>>, Blocks)
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)
Kinds == {"no", "lead", "trail", "both", "mix", "picky"}
Cats == {"l", "cl", "r"}
A(c, v) == [c |-> c, v |-> v]
\* the values only tell the arguments apart
Singles == {<<>>} \cup {<<A(c, 1)>> : c \in Cats} \cup {<<A(c, 1), A(d, 2)>> : c \in Cats, d \in Cats} \cup {<<A("r", Bomb)>>}
Ones(v) == {<<A(c, v)>> : c \in Cats}
Lists(v) == {<<>>, <<A("cl", v)>>, <<A("l", v), A("r", v + 1)>>}
Mistaken(v) == {<<A("r", v)>>, <<A("r", Bomb)>>}
First == arr = Start(<<1, 2>>, Blocks)

Objects ==
  \/ \E t \in 1..3, k \in Kinds, x \in Singles : op' = <<"one", 1, t, k, x>>
  \/ \E t \in 1..2, k \in Kinds, l \in Kinds, x \in Ones(1), y \in Ones(2) : op' = <<"pair", 2, t, k, l, "two", x, y>>
  \/ \E t \in 1..2, k \in Kinds, l \in Kinds : op' = <<"pair", 1, t, k, l, "none", <<>>, <<>>>>
  \/ \E k \in Kinds, l \in Kinds, x \in Lists(3), y \in Lists(5), h \in {"refs", "vals"} : op' = <<"pair", 1, 2, k, l, h, x, y>>
  \/ \E t \in 1..2, k \in Kinds, l \in Kinds, x \in Mistaken(7), y \in Mistaken(8), h \in {"cpair", "lpair", "rpair"} : op' = <<"pair", 2, t, k, l, h, x, y>>
  \/ \E t \in 1..2, k \in Kinds, l \in Kinds, x \in Ones(1), y \in Ones(2) : op' = <<"deriv", 1, t, k, l, x, y>>
Call(o, r, t, n) == <<[op |-> o, r |-> r, align |-> cfg.align[t], exact |-> TRUE, bytes |-> IF n < 0 THEN -1 ELSE n * cfg.size[t], was |-> 0]>>
MCStep ==
  \/ First /\ Same /\ Objects
  \/ \E a \in 1..2, b \in 1..Blocks, t \in Types, n \in Counts, f \in {"ok", "null", "throw"} :
       /\ arr.blk[b].r = 0 /\ ~(n = -2 /\ t = 1)
       /\ \/ n = -2 /\ Same
          \/ n # -2 /\ Allocate(a, b, t, n, f, Outcome(IF n = -1 THEN "throw" ELSE f), Call("alloc", arr.al[a], t, n))
       /\ op' = <<"alloc", a, b, t, n, f>>
  \/ \E a \in 1..2, b \in 1..Blocks :
       /\ arr.blk[b].r # 0 /\ cfg.eq[arr.blk[b].r] = cfg.eq[arr.al[a]]
       /\ \/ /\ Deallocate(a, b, "ok", Call("free", arr.al[a], arr.blk[b].t, arr.blk[b].n))
             /\ op' = <<"free", a, b>>
          \/ \E n \in Counts, f \in {"ok", "null", "throw"} :
               /\ ~(n = -2 /\ arr.blk[b].t = 1)
               /\ IF n < 0 \/ f # "ok" THEN Same ELSE arr' = [arr EXCEPT !.blk[b].n = n]
               /\ op' = <<"realloc", a, b, n, f>>
  \/ \E a \in 1..2, t \in Types : Same /\ op' = <<"max", a, t>>
  \/ \E s \in 1..2, d \in 1..2 : Copy(s, d) /\ op' = <<"copy", s, d>>
  \/ \E s \in 1..2, d \in 1..2 : Same /\ op' = <<"eq", s, d>>
  \/ \E d \in 1..2, r \in 1..3 : Make(d, r) /\ op' = <<"make", d, r>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)
\* a block can always be given back through some allocator made of an equal resource, and only blocks that are there are
Known == \A b \in 1..Blocks : arr.blk[b].r = 0 <=> arr.blk[b] = NoBlock
=============================================================================
