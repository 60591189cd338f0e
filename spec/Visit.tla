------------------------------- MODULE Visit --------------------------------
(* Visiting variants. arr: slot -> [i, v], the held alternative (0: none) and *)
(* its value.                                                                 *)
(*                                                                            *)
(* cfg: ty    slot -> alternative -> its type                                 *)
(*      keep  type -> a value moved from is still what it was                 *)
(*      sets  overload sets: a sequence of callables, each a sequence of      *)
(*            parameters [t, f]; t: type or 0 for a template; f: "c" const&,  *)
(*            "l" &, "r" &&, "u" forwarding reference (templates only)        *)
(* Value categories of arguments: "l", "cl" (const lvalue), "r", "cr".        *)
EXTENDS Integers, Sequences
VARIABLES cfg, arr

Slots == DOMAIN arr
Moved == -1
Has(s) == arr[s].i # 0
TypeOf(s) == cfg.ty[s][arr[s].i]
Set(s, i, v) == arr' = [arr EXCEPT ![s] = [i |-> i, v |-> v]]
Put(s, i, v) == i \in 1..Len(cfg.ty[s]) /\ Set(s, i, v)
Lose(s)      == Set(s, 0, 0)

Reachable(ss) == \A k \in 1..Len(ss) : Has(ss[k])
\* what the visitor is given, one entry per variant: alternative, value, category
Given(ss, cs) == [k \in 1..Len(ss) |-> <<arr[ss[k]].i, arr[ss[k]].v, cs[k]>>]
Named(ss, cs, c) == {ss[k] : k \in {k \in 1..Len(ss) : cs[k] \in c}}

\* The visitor reads, writes w to every argument it may change, takes the values of rvalue arguments, or fails.
Visitor(ss, cs, m, w) ==
  arr' = [s \in Slots |->
    CASE m = "write" /\ s \in Named(ss, cs, {"l", "r"}) -> [arr[s] EXCEPT !.v = w]
      [] m = "take" /\ s \in Named(ss, cs, {"r"}) /\ ~cfg.keep[TypeOf(s)] -> [arr[s] EXCEPT !.v = Moved]
      [] m = "ref" /\ s = ss[1] /\ cs[1] \in {"l", "r"} -> [arr[s] EXCEPT !.v = w]
      [] OTHER -> arr[s]]

\* r: "ok", "elem" (the visitor failed), "bad" (a variant is valueless); calls: number of calls of the visitor;
\* given: what it was given; ret: what came back.
Outcome(ss, m) == IF ~Reachable(ss) THEN "bad" ELSE IF m = "throw" THEN "elem" ELSE "ok"
Visit(ss, cs, m, w, r, calls, given, ret) ==
  /\ r = Outcome(ss, m)
  /\ IF r = "bad" THEN calls = 0 /\ UNCHANGED arr
     ELSE /\ calls = 1 /\ given = Given(ss, cs)
          /\ Visitor(ss, cs, m, w)
          /\ r = "ok" => ret = (IF m = "ref" THEN arr[ss[1]].v ELSE w)

\* -- overload sets: the best callable for arguments of given types and categories -------------------------------
Fits(p, t, c) == /\ p.t \in {0, t}
                 /\ CASE p.f = "l" -> c = "l" [] p.f = "r" -> c = "r" [] OTHER -> TRUE
\* 0: binds the argument as it is; 1: adds const, or binds an rvalue to an lvalue reference
Cost(p, c) == IF p.f = "c" /\ c # "cl" THEN 1 ELSE 0
\* among equal bindings: 0 a type of its own, 1 a template of const&, 2 of forwarding reference
General(p) == IF p.t # 0 THEN 0 ELSE IF p.f = "u" THEN 2 ELSE 1
Viable(q, ts, cs) == Len(q) = Len(ts) /\ \A k \in 1..Len(q) : Fits(q[k], ts[k], cs[k])
Below(F(_, _), a, b) == (\A k \in 1..Len(a) : F(a[k], k) <= F(b[k], k)) /\ (\E k \in 1..Len(a) : F(a[k], k) < F(b[k], k))
Better(a, b, cs) == LET C(p, k) == Cost(p, cs[k]) G(p, k) == General(p) IN
                    Below(C, a, b) \/ ((\A k \in 1..Len(a) : C(a[k], k) = C(b[k], k)) /\ Below(G, a, b))
Best(set, ts, cs) == {x \in 1..Len(set) : Viable(set[x], ts, cs) /\
                        \A y \in 1..Len(set) : y # x /\ Viable(set[y], ts, cs) => Better(set[x], set[y], cs)}
Pick(x, ss, cs, r, won) ==
  /\ r = Outcome(ss, "read") /\ UNCHANGED arr
  /\ r = "ok" => Best(cfg.sets[x], [k \in 1..Len(ss) |-> TypeOf(ss[k])], cs) = {won}

\* -- what must hold ----------------------------------------------------------
TypeOK == \A s \in Slots : arr[s].i \in 0..Len(cfg.ty[s])
=============================================================================
