------------------------------- MODULE VlaMC --------------------------------
(* Exhaustive exploration of Vla inside small bounds.  Capacities follow one *)
(* growth law here; the trace spec accepts any law allowed by Vla.           *)
EXTENDS Vla, TLC, Json
CONSTANTS NSlots, MaxLen, Ks, Pos, MaxRuns, Vals, Als, Lims, Faults, Kinds, Cfgs
VARIABLE op
vars == <<cfg, arr, op>>
View == <<cfg, arr>>

MCInit == /\ cfg \in Cfgs
          /\ arr = [s \in 1..NSlots |-> Off]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

Law(A, n) == IF n <= A.cap THEN A.cap
             ELSE Max2(n, Min2(RoundUp(Mx(A)), A.cap + Unit * Max2(2, A.cap \div (2 * Unit))))
Exact(A, n) == IF n <= A.cap THEN A.cap ELSE RoundUp(n)

\* one observation: slot s gets capacity c, all else as is
X(s, c) == [t \in Slots |-> [q |-> arr[t].q, cap |-> IF t = s THEN c ELSE arr[t].cap, al |-> arr[t].al,
                             max |-> IF arr[t].on THEN Mx(arr[t]) ELSE 0]]
X2(s, c, t, d) == [X(s, c) EXCEPT ![t].cap = d]

Outcomes(f) == CASE f = "n" -> {"ok", "length_error"}
                 [] f = "a" -> {"ok", "length_error", "bad_alloc"}
                 [] f = "e" -> {"ok", "length_error", "elem"}

On(s) == arr[s].on

Do(k) == k \in Kinds

MCStep ==
  \E s \in Slots :
  \/ /\ ~On(s)
     /\ \/ Do("new") /\ \E al \in Als, l \in Lims : New(s, al, l, "ok", X(s, 0)) /\ op' = <<"new", "n", 0, s, al, l>>
        \/ Do("list") /\ \E al \in Als, l \in Lims, n \in Ks, v \in Vals, f \in Faults, r \in {"ok", "length_error", "bad_alloc", "elem"} :
             /\ r \in Outcomes(f)
             /\ List(s, al, l, Fill(n, v), r, f, X(s, RoundUp(n)))
             /\ op' = <<"list", f, 1, s, al, l>> \o Fill(n, v)
        \/ \E t \in Slots \ {s}, f \in Faults, r \in {"ok", "length_error", "bad_alloc", "elem"} :
             /\ On(t) /\ r \in Outcomes(f)
             /\ \/ Do("copynew") /\ CopyNew(s, t, r, f, X(s, RoundUp(Len(arr[t].q)))) /\ op' = <<"copynew", f, 1, s, t>>
                \/ Do("copynewa") /\ \E al \in Als : CopyNewA(s, t, al, r, f, X(s, RoundUp(Len(arr[t].q)))) /\ op' = <<"copynewa", f, 1, s, t, al>>
                \/ Do("movenew") /\ f = "n" /\ MoveNew(s, t, r, X2(s, arr[t].cap, t, 0)) /\ op' = <<"movenew", "n", 0, s, t>>
                \/ Do("movenewa") /\ \E al \in Als :
                     /\ MoveNewA(s, t, al, r, f, X2(s, IF SameAl(al, arr[t].al) THEN arr[t].cap ELSE RoundUp(Len(arr[t].q)), t,
                                                     IF r = "ok" THEN 0 ELSE arr[t].cap))
                     /\ op' = <<"movenewa", f, 1, s, t, al>>
  \/ /\ On(s)
     /\ LET A == arr[s] n == Len(A.q) IN
        \/ Do("destroy") /\ Destroy(s, "ok") /\ op' = <<"destroy", "n", 0, s>>
        \/ Do("pop") /\ Pop(s, "ok") /\ op' = <<"pop", "n", 0, s>>
        \/ Do("clear") /\ Clear(s, "ok") /\ op' = <<"clear", "n", 0, s>>
        \/ Do("write") /\ \E k \in 1..n \cap Pos, v \in Vals : Write(s, k, v, "ok") /\ op' = <<"write", "n", 0, s, k, v>>
        \/ \E f \in Faults, r \in {"ok", "length_error", "bad_alloc", "elem"} :
             /\ r \in Outcomes(f)
             /\ \/ Do("push") /\ n <= MaxLen /\ \E v \in Vals : Push(s, v, r, f, X(s, IF r = "ok" THEN Law(A, n + 1) ELSE A.cap)) /\ op' = <<"push", f, 1, s, v>>
                \/ Do("resize") /\ \E k \in Ks, v \in Vals : Resize(s, k, v, r, f, X(s, IF r = "ok" THEN Exact(A, Min2(k, Mx(A))) ELSE A.cap)) /\ op' = <<"resize", f, 1, s, k, v>>
                \/ Do("assign") /\ \E k \in Ks, v \in Vals : Assign(s, k, v, r, f, X(s, IF r = "ok" THEN Exact(A, Min2(k, Mx(A))) ELSE A.cap)) /\ op' = <<"assign", f, 1, s, k, v>>
                \/ Do("reserve") /\ \E k \in Ks : Reserve(s, k, r, f, X(s, IF r = "ok" THEN Exact(A, Min2(k, Mx(A))) ELSE A.cap)) /\ op' = <<"reserve", f, 1, s, k>>
                \/ Do("shrink") /\ Shrink(s, r, f, X(s, IF r = "ok" /\ f # "a" THEN RoundUp(n) ELSE A.cap)) /\ op' = <<"shrink", f, 1, s>>
                \/ \E t \in Slots : On(t) /\
                     LET m == Len(arr[t].q)
                         fit == m <= A.cap /\ A.cap <= Mx(arr[t]) IN
                     \/ Do("copyassign") /\ CopyAssign(s, t, r, f,
                            X(s, IF r # "ok" THEN A.cap ELSE IF fit /\ (SameAl(A.al, arr[t].al) \/ ~cfg.pocca) THEN A.cap ELSE RoundUp(m)))
                          /\ op' = <<"copyassign", f, 1, s, t>>
                     \/ Do("moveassign") /\ MoveAssign(s, t, r, f,
                            IF r # "ok" \/ s = t THEN X(s, A.cap)
                            ELSE IF cfg.pocma \/ SameAl(A.al, arr[t].al) THEN X2(s, arr[t].cap, t, 0)
                            ELSE IF fit THEN X(s, A.cap) ELSE X(s, RoundUp(m)))
                          /\ op' = <<"moveassign", f, 1, s, t>>

\* bit arrays: bound the number of runs of equal bits
Runs(q) == IF q = <<>> THEN 0 ELSE 1 + Cardinality({k \in 2..Len(q) : q[k] # q[k - 1]})
FewRuns == \A s \in Slots : Runs(arr[s].q) <= MaxRuns /\ arr[s].cap <= 4 * (MaxLen + 8)

MCNext == UNCHANGED cfg /\ MCStep

Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* only the slots a call names may change; a copy never changes its source
Named(o) == {s \in Slots : \E k \in 4..Min2(5, Len(o)) : o[k] = s}
FrameOK == [][\A s \in Slots : s \notin Named(op') => arr'[s] = arr[s]]_vars
CopyKeepsSource == [][op'[1] \in {"copyassign", "copynew", "copynewa"} =>
                      \A t \in Slots : t = op'[5] /\ t # op'[4] => arr'[t] = arr[t]]_vars

-----------------------------------------------------------------------------
\* configurations explored
Big == 1000000
C(b, e, pm, pc, ae, so, am) == [bits |-> b, exc |-> e, pocma |-> pm, pocca |-> pc, aleq |-> ae, socc |-> so,
                                amax |-> am, tight |-> FALSE]
AllBig == <<Big, Big, Big>>
All == {"new", "list", "copynew", "copynewa", "movenew", "movenewa", "destroy", "pop", "clear", "write", "push",
        "resize", "assign", "reserve", "shrink", "copyassign", "moveassign"}
SeqKinds == All \ {"list", "copynewa", "movenewa"}
PairKinds == All \ {"write", "pop", "reserve", "list", "assign"}
OnlyN == {"n"}  NA == {"n", "a"}  NE == {"n", "e"}  NAE == {"n", "a", "e"}
SeqCfgs == {C(FALSE, TRUE, FALSE, FALSE, FALSE, 0, AllBig)}
BitCfgs == {C(TRUE, TRUE, FALSE, FALSE, FALSE, 0, AllBig)}
LimCfgs == {C(FALSE, e, FALSE, FALSE, FALSE, 0, <<3, Big, Big>>) : e \in BOOLEAN}
BitLimCfgs == {C(TRUE, e, FALSE, FALSE, FALSE, 0, <<16, Big, Big>>) : e \in BOOLEAN}
AllocCfgs == {C(FALSE, TRUE, pm, pc, FALSE, 0, <<Big, Big, Big>>) : pm, pc \in BOOLEAN}
             \cup {C(FALSE, TRUE, FALSE, FALSE, TRUE, 0, <<Big, Big, Big>>)}
PmrCfgs == {C(FALSE, TRUE, FALSE, FALSE, FALSE, 3, <<2, Big, Big>>)}
K3 == 0..3  K4 == 0..4  KB3 == {0, 1, 8, 9}  KBits == {0, 1, 7, 8, 9}  KBits2 == {0, 1, 8, 9, 17}  PBits == {1, 8, 9}  PAll == 1..99
BitKinds == All \ {"list", "copynewa", "movenewa", "copynew", "movenew", "copyassign", "moveassign"}
BitPairKinds == {"new", "destroy", "resize", "assign", "copynew", "movenew", "movenewa", "copyassign", "moveassign", "shrink"}
BitPairCfgs == {C(TRUE, TRUE, pm, FALSE, FALSE, 0, <<Big, Big, Big>>) : pm \in BOOLEAN}
One == {1}  OneTwo == {1, 2}  Bits == {0, 1}
LBig == {Big}  LSmall == {0, 2, 3}  LMix == {2, Big}  LBits == {0, 9, 16}
=============================================================================
