------------------------------- MODULE CapsMC --------------------------------
(* Exhaustive exploration of Caps for a table of element types. *)
EXTENDS Caps, TLC, Json
CONSTANTS Vals, Pairs  \* Pairs: how far apart in the table two alternatives are
VARIABLE op
View == <<cfg, arr>>

E(cc, mc, ca, ma, dt, df, sw) == [cc |-> cc, mc |-> mc, ca |-> ca, ma |-> ma, dt |-> dt, df |-> df, sw |-> sw]
Table == <<
  E("t", "t", "t", "t", "t", "n", "s"), E("u", "u", "u", "u", "u", "u", "s"), E("n", "n", "n", "n", "u", "n", "s"),
  E("u", "n", "u", "n", "u", "d", "s"), E("d", "n", "d", "n", "u", "n", "s"), E("d", "t", "d", "t", "t", "u", "s"),
  E("u", "a", "u", "a", "u", "n", "s"), E("d", "d", "d", "d", "u", "d", "s"), E("d", "d", "d", "d", "t", "n", "s"),
  E("t", "u", "t", "u", "t", "u", "s"), E("u", "t", "u", "t", "t", "n", "s"), E("u", "u", "d", "d", "u", "d", "s"),
  E("t", "t", "d", "d", "t", "n", "s"), E("d", "u", "d", "d", "u", "u", "s"), E("t", "t", "u", "u", "t", "n", "s"),
  E("u", "u", "t", "t", "t", "d", "s"), E("t", "t", "t", "t", "u", "n", "s"), E("u", "d", "u", "d", "u", "u", "s"),
  E("d", "d", "u", "u", "t", "n", "s"), E("u", "n", "d", "n", "u", "d", "s"), E("n", "u", "n", "u", "u", "n", "s"),
  E("t", "t", "t", "u", "t", "u", "s"), E("t", "t", "u", "t", "t", "n", "s"), E("t", "u", "t", "t", "t", "d", "s"),
  E("u", "t", "t", "t", "t", "n", "s"), E("u", "u", "u", "u", "u", "u", "n"), E("n", "n", "n", "n", "t", "n", "u"),
  E("n", "n", "n", "n", "u", "d", "d"), E("n", "a", "n", "a", "t", "n", "s") >>
N == Len(Table)
\* full: the functions are used, not only asked for
Conf(k, xs, full, c, m) == [k |-> k, xs |-> xs, ts |-> [j \in 1..Len(xs) |-> Table[xs[j]]], full |-> full, c |-> c, m |-> m]
Far(a, b) == (b + N - a) % N
MCInit == /\ cfg \in {Conf("opt", <<x>>, TRUE, FALSE, FALSE) : x \in 1..N} \cup {Conf("var", <<x>>, TRUE, FALSE, FALSE) : x \in 1..N}
                       \cup {Conf("var", <<x[1], x[2]>>, Far(x[1], x[2]) \in Pairs, FALSE, FALSE) : x \in {y \in (1..N) \X (1..N) : y[1] # y[2]}}
                       \cup {Conf("uvar", <<1>>, FALSE, c, m) : c, m \in BOOLEAN}
          /\ arr = [s \in 1..2 |-> IF cfg.k = "var" THEN [i |-> 1, v |-> 0] ELSE None]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

Move(f, w) == IF w.i = 0 THEN w ELSE Left(f, w)
Use ==
  \/ \E s \in Slots, i \in Types, v \in Vals : Set(s, [i |-> i, v |-> v]) /\ op' = <<"put", s, i, v>>
  \/ \E s \in Slots : Set(s, None) /\ op' = <<"clear", s>>
  \/ \E s \in Slots, f \in {"cc", "mc"} : Able(f) = "yes" /\ Set(s, Move(f, arr[s])) /\ op' = <<"made", s, f>>
  \/ \E d, s \in Slots, f \in {"ca", "ma"} : /\ Able(f) = "yes" /\ (d = s => f = "ca")
                                             /\ arr' = IF d = s THEN arr ELSE
                                                       [arr EXCEPT ![d] = arr[s], ![s] = Move(IF arr[d].i = arr[s].i THEN f ELSE Ctor(f), arr[s])]
                                             /\ op' = <<"assign", d, s, f>>
  \/ Able("mc") = "yes" /\ (cfg.k = "opt" \/ Able("ma") = "yes") /\ All(CanSwap) /\ Swapped(1, 2) /\ op' = <<"swap">>
MCStep ==
  \/ \E x \in Asks : UNCHANGED arr /\ op' = <<"ask", x[1], x[2]>>
  \/ cfg.full /\ Use

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* every question is answered in only one way where the wrapper can do what is asked about
Decided == \A x \in Asks : x[1] = "can" /\ x[2] \in Specials /\ Able(x[2]) # "any" => Answer(x[1], x[2], TRUE) # Answer(x[1], x[2], FALSE)
\* what is trivial cannot throw, what can be assigned can be constructed
Ordered == cfg.k # "uvar" =>
  \A q \in Specials : /\ Able(q) = "yes" /\ Full(Triv, q) => Full(Calm, q)
                      /\ Able("ca") = "yes" => Able("cc") = "yes"
                      /\ Able("ma") = "yes" => Able("mc") = "yes"
\* a copy changes nothing but the destination
CopyKeeps == [][(op'[1] = "made" /\ op'[3] = "cc") \/ (op'[1] = "assign" /\ op'[4] = "ca") =>
                  arr'[IF op'[1] = "made" THEN op'[2] ELSE op'[3]] = arr[IF op'[1] = "made" THEN op'[2] ELSE op'[3]]]_<<cfg, arr, op>>
=============================================================================
