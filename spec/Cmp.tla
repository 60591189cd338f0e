-------------------------------- MODULE Cmp ---------------------------------
(* Comparing optionals, values and variants. The pool arr has for every slot  *)
(* [i, v]: an optional holding value v (i = 1) or nothing (i = 0), or a     *)
(* variant holding value v of alternative i, or valueless (i = 0).            *)
(*                                                                            *)
(* cfg: kind  slot -> the value type of an optional (1, 2), or 0: a variant   *)
(*      altt  variant alternative -> its value type (1, 2), or 0: a unit type *)
(*      tab   tab[o][p][v+1][w+1]: what operator o of the values themselves   *)
(*            answers; p = 2 * (left type - 1) + right type. Nothing is       *)
(*            assumed about these answers.                                    *)
(* Operators o: 1 ==, 2 !=, 3 <, 4 <=, 5 >, 6 >=.                             *)
EXTENDS Integers, Sequences
VARIABLES cfg, arr

Slots == DOMAIN arr
Ops   == 1..6
Own(o, t, v, u, w) == cfg.tab[o][2 * (t - 1) + u][v + 1][w + 1]

\* what each operator says about integers, used on ranks
Ranks(o, a, b) == CASE o = 1 -> a = b [] o = 2 -> a # b [] o = 3 -> a < b [] o = 4 -> a <= b [] o = 5 -> a > b [] o = 6 -> a >= b

\* optional of type t with optional of type u
Opt(o, x, t, y, u) == IF x.i # 0 /\ y.i # 0 THEN Own(o, t, x.v, u, y.v) ELSE Ranks(o, x.i, y.i)
\* optional with a plain value on the right and on the left; the value ranks like a present one
OptVal(o, x, t, v, u) == IF x.i # 0 THEN Own(o, t, x.v, u, v) ELSE Ranks(o, 0, 1)
ValOpt(o, v, u, x, t) == IF x.i # 0 THEN Own(o, u, v, t, x.v) ELSE Ranks(o, 1, 0)
\* with nothing
OptNull(o, x) == Ranks(o, x.i, 0)
NullOpt(o, x) == Ranks(o, 0, x.i)
\* variants: valueless first, then by alternative, then by value
Var(o, x, y) == IF x.i # y.i \/ x.i = 0 \/ cfg.altt[x.i] = 0 THEN Ranks(o, x.i, y.i)
                ELSE Own(o, cfg.altt[x.i], x.v, cfg.altt[x.i], y.v)

Two(o, s, u) == IF cfg.kind[s] = 0 THEN Var(o, arr[s], arr[u]) ELSE Opt(o, arr[s], cfg.kind[s], arr[u], cfg.kind[u])
Comparable(s, u) == (cfg.kind[s] = 0) = (cfg.kind[u] = 0)

Set(s, i, v) == arr' = [arr EXCEPT ![s] = [i |-> i, v |-> v]]
Put(s, i, v) == /\ i \in 1..(IF cfg.kind[s] = 0 THEN Len(cfg.altt) ELSE 1)
                /\ Set(s, i, IF cfg.kind[s] = 0 /\ cfg.altt[i] = 0 THEN 0 ELSE v)
Clear(s)     == Set(s, 0, 0)
\* a comparison answers and changes nothing
Compare(s, u, r)     == Comparable(s, u) /\ (\A o \in Ops : r[o] = Two(o, s, u)) /\ UNCHANGED arr
\* r: optional op value, value op optional
CompareVal(s, t, v, r) ==
  /\ cfg.kind[s] # 0 /\ UNCHANGED arr
  /\ \A o \in Ops : r[o] = OptVal(o, arr[s], cfg.kind[s], v, t) /\ r[6 + o] = ValOpt(o, v, t, arr[s], cfg.kind[s])
CompareNull(s, r) ==
  /\ cfg.kind[s] # 0 /\ UNCHANGED arr
  /\ \A o \in Ops : r[o] = OptNull(o, arr[s]) /\ r[6 + o] = NullOpt(o, arr[s])

\* an operator of optionals is there when the values have it. own: the operators of the values, r: those of the optionals
Has(own, r) == r = own /\ UNCHANGED arr

\* -- what must hold ----------------------------------------------------------
TypeOK == \A s \in Slots : arr[s].i \in 0..(IF cfg.kind[s] = 0 THEN Len(cfg.altt) ELSE 1)
\* an absent operand comes before a present one, and equals another absent one
AbsentFirst == \A s, u \in Slots : Comparable(s, u) /\ arr[s].i = 0 =>
                  IF arr[u].i = 0 THEN Two(1, s, u) /\ Two(4, s, u) /\ Two(6, s, u) /\ ~Two(2, s, u) /\ ~Two(3, s, u) /\ ~Two(5, s, u)
                  ELSE Two(2, s, u) /\ Two(3, s, u) /\ Two(4, s, u) /\ ~Two(1, s, u) /\ ~Two(5, s, u) /\ ~Two(6, s, u)
\* nothing on either side is an absent optional
NullIsAbsent == \A s, u \in Slots : cfg.kind[s] # 0 /\ cfg.kind[u] # 0 /\ arr[u].i = 0 =>
                  \A o \in Ops : Two(o, s, u) = OptNull(o, arr[s]) /\ Two(o, u, s) = NullOpt(o, arr[s])
\* a plain value is a present optional
ValueIsPresent == \A s, u \in Slots : cfg.kind[s] # 0 /\ cfg.kind[u] # 0 /\ arr[u].i # 0 =>
                  \A o \in Ops : /\ Two(o, s, u) = OptVal(o, arr[s], cfg.kind[s], arr[u].v, cfg.kind[u])
                                 /\ Two(o, u, s) = ValOpt(o, arr[u].v, cfg.kind[u], arr[s], cfg.kind[s])
\* whatever the values' own operators are, a comparison across alternatives is decided by the alternative
ByAlternative == \A s, u \in Slots : cfg.kind[s] = 0 /\ cfg.kind[u] = 0 /\ arr[s].i # arr[u].i =>
                  /\ ~Two(1, s, u) /\ Two(2, s, u) /\ Two(3, s, u) = Two(5, u, s)
                  /\ Two(3, s, u) = Two(4, s, u) /\ Two(5, s, u) = Two(6, s, u) /\ Two(3, s, u) # Two(5, s, u)
\* ordered values give an order
Ordered == \A o \in Ops : \A p \in 1..4 : \A v, w \in 0..2 : cfg.tab[o][p][v + 1][w + 1] = Ranks(o, v, w)
IsOrder == Ordered =>
  \A s, u \in Slots : Comparable(s, u) =>
    /\ Two(2, s, u) # Two(1, s, u) /\ Two(4, s, u) # Two(5, s, u) /\ Two(6, s, u) # Two(3, s, u)
    /\ Two(3, s, u) = Two(5, u, s) /\ (Two(4, s, u) = (Two(3, s, u) \/ Two(1, s, u)))
    /\ \A w \in Slots : Comparable(u, w) => (Two(3, s, u) /\ Two(3, u, w) => Two(3, s, w)) /\ (Two(1, s, u) /\ Two(1, u, w) => Two(1, s, w))
=============================================================================
