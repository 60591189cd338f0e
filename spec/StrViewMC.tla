----------------------------- MODULE StrViewMC ------------------------------
(* Exhaustive exploration of StrView: one sequence to look in, one to look for. *)
EXTENDS StrView, TLC, Json
CONSTANTS Letters, MaxHay, MaxNeedle, Folds
VARIABLE op
View == <<cfg, arr>>
Words(n) == UNION {[1..k -> Letters] : k \in 0..n}

MCInit == /\ cfg \in {[fold |-> f] : f \in Folds}
          /\ arr = Start(2)
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

Ready == Len(arr.txt) = 2
Positions(s) == 0..(arr.v[s].n + 1) \cup {-1}
Some(s) == {0, 1, arr.v[s].n + 1, -1}
MCStep ==
  \/ Len(arr.txt) = 0 /\ \E t \in Words(MaxHay) : Fresh(1, t) /\ op' = <<"fresh", 1, t>>
  \/ Len(arr.txt) = 1 /\ \E t \in Words(MaxNeedle) : Fresh(2, t) /\ op' = <<"fresh", 2, t>>
  \/ Ready /\ Clear(1) /\ op' = <<"clear", 1>>
  \/ Ready /\ Swap(1, 2) /\ arr.v[2].b = 2 /\ op' = <<"swap", 1, 2>>
  \/ Ready /\ LET s == 1 IN \E p \in Positions(1), n \in Some(1) :
       \/ InRange(arr.v[s], p) /\ SubView(s, s, p, n, "ok") /\ op' = <<"sub", s, s, p, n>>
       \/ ~InRange(arr.v[s], p) /\ Same /\ op' = <<"sub", s, s, p, n>>
       \/ Same /\ op' = <<"copy", s, p, n>>
  \/ Ready /\ \E n \in 0..2 : Prefix(1, n) /\ op' = <<"prefix", 1, n>>
  \/ Ready /\ \E n \in 0..2 : Suffix(1, n) /\ op' = <<"suffix", 1, n>>
  \/ Ready /\ \E p \in Positions(1) :
       \/ Same /\ op' = <<"at", 1, p>>
       \/ \E c \in Letters : Same /\ op' = <<"findc", 1, c, p>>
       \/ \E t \in {1, 2} : Same /\ op' = <<"finds", 1, t, p>>
  \/ Ready /\ \E t \in {1, 2} : Same /\ op' = <<"cmp", 1, t>>
  \/ Ready /\ Same /\ op' = <<"walk", 1>>
  \/ Ready /\ \E w \in {0, arr.v[1].n, arr.v[1].n + 2}, a \in {"none", "left", "right", "internal", "both"} : Same /\ op' = <<"out", 1, w, 4, a>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* -- what is asked agrees with itself ------------------------------------------------------------------------------
T(s) == Text(arr.v[s])
\* comparison is an order
Antisymmetric == Compare(T(1), T(2)) = 0 - Compare(T(2), T(1))
\* what is found is there, and nowhere earlier; the empty needle is everywhere, the end included
Found == \A p \in Positions(1) :
           LET k == Find(T(1), T(2), p) IN
           /\ k # -1 => k >= Big(p) /\ Compare(SubSeq(T(1), k + 1, k + Len(T(2))), T(2)) = 0
           /\ (T(2) = <<>> /\ p \in 0..Len(T(1))) => k = p
           /\ (k = -1 /\ p >= 0 /\ p <= Len(T(1))) => \A q \in p..Len(T(1)) : Find(T(1), T(2), q) = -1
\* one step of the search at a time
Stepwise == \A p \in 0..(Len(T(1)) - 1) :
              Find(T(1), T(2), p) = IF Len(T(1)) - p >= Len(T(2)) /\ Compare(SubSeq(T(1), p + 1, p + Len(T(2))), T(2)) = 0
                                    THEN p ELSE Find(T(1), T(2), p + 1)
\* a prefix comes first
Prefixes == \A k \in 0..Len(T(1)) : Compare(SubSeq(T(1), 1, k), T(1)) = (IF k = Len(T(1)) THEN 0 ELSE -1)
=============================================================================
