-------------------------------- MODULE Vla ---------------------------------
(* Variable-length arrays: a pool of bounded sequences drawing memory from   *)
(* allocators.  One action per public call.  Outcome arguments:              *)
(*   r  "ok" | "length_error" | "bad_alloc" | "elem" (an element threw)      *)
(*   f  the fault that fired during the call: "n" none, "a" allocation       *)
(*      refused, "e" element operation threw                                 *)
(*   x  what the implementation is free to choose: x[s] is the record        *)
(*      [cap, q] of slot s after the call (q is consulted only after faults) *)
(* VlaMC enumerates outcomes, VlaTrace binds them to recorded events.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  cfg,   \* [bits, exc, pocma, pocca, aleq, socc, amax, tight, ...] see VlaTrace
  arr    \* slot -> [on, q, cap, lim, al]

avars == <<cfg, arr>>

Slots == DOMAIN arr
Off == [on |-> FALSE, q |-> <<>>, cap |-> 0, lim |-> 0, al |-> 0]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Unit == IF cfg.bits THEN 8 ELSE 1
RoundUp(n) == ((n + Unit - 1) \div Unit) * Unit

\* maximum size an array reports
MaxOf(lim, al) == Min2(lim, cfg.amax[al])
Mx(A) == MaxOf(A.lim, A.al)
SameAl(a, b) == cfg.aleq \/ a = b

Fill(n, v) == [k \in 1..n |-> v]
Ext(q, n, v) == q \o Fill(n - Len(q), v)
Pre(q, n) == SubSeq(q, 1, Min2(n, Len(q)))

\* capacities an array of limit mx may have after a call that needs room for n
CapFor(n, mx, c) == c >= n /\ c <= RoundUp(mx) /\ c % Unit = 0
Grown(A, n, c) == IF n <= A.cap THEN c = A.cap ELSE CapFor(n, Mx(A), c) /\ c >= A.cap

Set1(s, A)       == arr' = [arr EXCEPT ![s] = A]
Set2(s, A, t, B) == arr' = [arr EXCEPT ![s] = A, ![t] = B]
Same             == UNCHANGED arr

Refused(r) == r = IF cfg.exc THEN "length_error" ELSE "ok"

\* an allocation refusal may surface only when one happened (or memory is finite)
NoMem(r, f) == r = "bad_alloc" /\ cfg.exc /\ (f = "a" \/ cfg.tight)
SilentNoMem(r, f) == r = "ok" /\ ~cfg.exc /\ (f = "a" \/ cfg.tight)
Threw(r, f) == r = "elem" /\ f = "e" /\ cfg.exc

\* every value an array may show after an element operation threw half way
Sane(q, len) == Len(q) <= len

-----------------------------------------------------------------------------
\* construction and destruction

New(s, al, lim, r, x) ==
  /\ ~arr[s].on
  /\ r = "ok"
  /\ CapFor(0, MaxOf(lim, al), x[s].cap)
  /\ Set1(s, [on |-> TRUE, q |-> <<>>, cap |-> x[s].cap, lim |-> lim, al |-> al])

\* from a list or a range, also the copy part of copy constructors
Build(s, al, lim, vals, r, f, x) ==
  LET mx == MaxOf(lim, al)
      made(q) == [on |-> TRUE, q |-> q, cap |-> x[s].cap, lim |-> lim, al |-> al]
  IN
  /\ ~arr[s].on
  /\ \/ /\ Len(vals) <= mx /\ r = "ok"
        /\ CapFor(Len(vals), mx, x[s].cap)
        /\ Set1(s, made(vals))
     \/ /\ Len(vals) > mx /\ cfg.exc /\ r = "length_error" /\ Same
     \/ /\ Len(vals) > mx /\ ~cfg.exc /\ r = "ok" /\ CapFor(mx, mx, x[s].cap)
        /\ Set1(s, made(Pre(vals, mx)))
     \/ NoMem(r, f) /\ Same
     \/ /\ SilentNoMem(r, f) /\ Len(x[s].q) < Len(vals) /\ x[s].q = Pre(vals, Len(x[s].q))
        /\ CapFor(Len(x[s].q), mx, x[s].cap) /\ Set1(s, made(x[s].q))
     \/ Threw(r, f) /\ Same

List(s, al, lim, vals, r, f, x) == Build(s, al, lim, vals, r, f, x)
CopyNew(s, t, r, f, x) == t # s /\ arr[t].on
  /\ Build(s, IF cfg.socc = 0 THEN arr[t].al ELSE cfg.socc, arr[t].lim, arr[t].q, r, f, x)
CopyNewA(s, t, al, r, f, x) == t # s /\ arr[t].on /\ Build(s, al, arr[t].lim, arr[t].q, r, f, x)

MoveNew(s, t, r, x) ==
  /\ t # s /\ arr[t].on /\ ~arr[s].on
  /\ r = "ok"
  /\ CapFor(Len(arr[t].q), RoundUp(Mx(arr[t])), x[s].cap)
  /\ CapFor(0, Mx(arr[t]), x[t].cap)
  /\ Set2(s, [on |-> TRUE, q |-> arr[t].q, cap |-> x[s].cap, lim |-> arr[t].lim, al |-> arr[t].al],
          t, [arr[t] EXCEPT !.q = <<>>, !.cap = x[t].cap])

MoveNewA(s, t, al, r, f, x) ==
  LET B == arr[t] mx == MaxOf(B.lim, al)
      made(q) == [on |-> TRUE, q |-> q, cap |-> x[s].cap, lim |-> B.lim, al |-> al]
  IN
  /\ t # s /\ B.on /\ ~arr[s].on
  /\ \/ /\ r = "ok" /\ Len(B.q) <= mx
        /\ CapFor(Len(B.q), mx, x[s].cap) /\ CapFor(0, Mx(B), x[t].cap)
        /\ Set2(s, made(B.q), t, [B EXCEPT !.q = <<>>, !.cap = x[t].cap])
     \/ /\ Len(B.q) > mx /\ cfg.exc /\ r = "length_error" /\ Same
     \/ ~SameAl(al, B.al) /\ NoMem(r, f) /\ Same
     \/ /\ ~SameAl(al, B.al) /\ ~cfg.exc /\ r = "ok" /\ (f = "a" \/ cfg.tight \/ Len(B.q) > mx)
        /\ Len(x[s].q) < Len(B.q) /\ x[s].q = Pre(B.q, Len(x[s].q)) /\ CapFor(Len(x[s].q), mx, x[s].cap)
        /\ x[t].q \in {B.q, <<>>} /\ CapFor(Len(x[t].q), Mx(B), x[t].cap)
        /\ Set2(s, made(x[s].q), t, [B EXCEPT !.q = x[t].q, !.cap = x[t].cap])
     \/ /\ ~SameAl(al, B.al) /\ Threw(r, f) /\ Sane(x[t].q, Len(B.q))
        /\ Set1(t, [B EXCEPT !.q = x[t].q, !.cap = x[t].cap])

Destroy(s, r) == arr[s].on /\ r = "ok" /\ Set1(s, Off)

-----------------------------------------------------------------------------
\* growing and shrinking

Push(s, v, r, f, x) ==
  LET A == arr[s] n == Len(A.q) IN
  /\ A.on
  /\ \/ n >= Mx(A) /\ Refused(r) /\ Same
     \/ /\ n < Mx(A) /\ r = "ok" /\ Grown(A, n + 1, x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = Append(@, v), !.cap = x[s].cap])
     \/ n < Mx(A) /\ n + 1 > A.cap /\ (NoMem(r, f) \/ SilentNoMem(r, f)) /\ Same
     \/ /\ n < Mx(A) /\ Threw(r, f) /\ (x[s].cap = A.cap \/ Grown(A, n + 1, x[s].cap))
        /\ Set1(s, [A EXCEPT !.cap = x[s].cap])
     \/ Threw(r, f) /\ Same                      \* also where both apply: which failure is met first is free

Pop(s, r) == arr[s].on /\ r = "ok"
  /\ Set1(s, [arr[s] EXCEPT !.q = Pre(@, Max2(0, Len(@) - 1))])

Clear(s, r) == arr[s].on /\ r = "ok" /\ Set1(s, [arr[s] EXCEPT !.q = <<>>])

Resize(s, k, v, r, f, x) ==
  LET A == arr[s] n == Len(A.q) IN
  /\ A.on
  /\ \/ k <= n /\ r = "ok" /\ Set1(s, [A EXCEPT !.q = Pre(@, k)])
     \/ k > Mx(A) /\ k > n /\ cfg.exc /\ r = "length_error" /\ Same
     \/ /\ k > Mx(A) /\ k > n /\ ~cfg.exc /\ r = "ok" /\ Grown(A, Mx(A), x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = Ext(A.q, Mx(A), v), !.cap = x[s].cap])
     \/ /\ k > n /\ k <= Mx(A) /\ r = "ok" /\ Grown(A, k, x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = Ext(A.q, k, v), !.cap = x[s].cap])
     \/ k > A.cap /\ k <= Mx(A) /\ NoMem(r, f) /\ Same
     \/ /\ k > A.cap /\ SilentNoMem(r, f)
        /\ Len(x[s].q) >= n /\ Len(x[s].q) < k /\ x[s].q = Ext(A.q, Len(x[s].q), v)
        /\ CapFor(Len(x[s].q), Mx(A), x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = x[s].q, !.cap = x[s].cap])
     \/ /\ k > n /\ k <= Mx(A) /\ Threw(r, f)
        /\ Len(x[s].q) >= n /\ Len(x[s].q) < k /\ x[s].q = Ext(A.q, Len(x[s].q), v)
        /\ (x[s].cap = A.cap \/ Grown(A, k, x[s].cap))
        /\ Set1(s, [A EXCEPT !.q = x[s].q, !.cap = x[s].cap])
     \/ Threw(r, f) /\ Same

Assign(s, k, v, r, f, x) ==
  LET A == arr[s] n == Len(A.q) IN
  /\ A.on
  /\ \/ /\ k <= Mx(A) /\ r = "ok" /\ Grown(A, k, x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = Fill(k, v), !.cap = x[s].cap])
     \/ k > Mx(A) /\ cfg.exc /\ r = "length_error" /\ Same
     \/ /\ k > Mx(A) /\ ~cfg.exc /\ r = "ok" /\ Grown(A, Mx(A), x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = Fill(Mx(A), v), !.cap = x[s].cap])
     \/ /\ k > A.cap /\ k <= Mx(A) /\ NoMem(r, f) /\ x[s].q \in {A.q, <<>>}
        /\ Set1(s, [A EXCEPT !.q = x[s].q])
     \/ /\ k > A.cap /\ SilentNoMem(r, f)
        /\ Len(x[s].q) < k /\ x[s].q = Fill(Len(x[s].q), v)
        /\ CapFor(Len(x[s].q), Mx(A), x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = x[s].q, !.cap = x[s].cap])
     \/ /\ k <= Mx(A) /\ Threw(r, f) /\ Sane(x[s].q, Max2(n, k))
        /\ CapFor(Len(x[s].q), Mx(A), x[s].cap)
        /\ Set1(s, [A EXCEPT !.q = x[s].q, !.cap = x[s].cap])
     \/ Threw(r, f) /\ Same

Reserve(s, k, r, f, x) ==
  LET A == arr[s] IN
  /\ A.on
  /\ \/ k <= Mx(A) /\ r = "ok" /\ Grown(A, k, x[s].cap) /\ Set1(s, [A EXCEPT !.cap = x[s].cap])
     \/ k > Mx(A) /\ k <= A.cap /\ r = "ok" /\ Same
     \/ k > Mx(A) /\ cfg.exc /\ r = "length_error" /\ Same
     \/ /\ k > Mx(A) /\ ~cfg.exc /\ r = "ok" /\ CapFor(A.cap, Mx(A), x[s].cap)
        /\ Set1(s, [A EXCEPT !.cap = x[s].cap])
     \/ k > A.cap /\ k <= Mx(A) /\ (NoMem(r, f) \/ SilentNoMem(r, f)) /\ Same
     \/ Threw(r, f) /\ Same

\* refusal to provide the smaller block is not an error
Shrink(s, r, f, x) ==
  LET A == arr[s] n == Len(A.q) IN
  /\ A.on
  /\ \/ /\ r = "ok"
        /\ IF f = "a" \/ cfg.tight THEN x[s].cap \in {A.cap, RoundUp(n)} ELSE x[s].cap = RoundUp(n)
        /\ Set1(s, [A EXCEPT !.cap = x[s].cap])
     \/ Threw(r, f) /\ Same

Write(s, k, v, r) ==
  /\ arr[s].on /\ r = "ok"
  /\ k \in 1..Len(arr[s].q)
  /\ Set1(s, [arr[s] EXCEPT !.q[k] = v])

-----------------------------------------------------------------------------
\* assignment between arrays

\* Limit of the destination after a failed assignment: the old one, or already that of the source.
\* Where both explain the reported maximum, an array with its old contents kept its old limit.
LimAfter(A, B, y) == IF MaxOf(A.lim, y.al) = y.max /\ (y.q = A.q \/ MaxOf(B.lim, y.al) # y.max) THEN A.lim ELSE B.lim

CopyAssign(d, s, r, f, x) ==
  LET A == arr[d] B == arr[s]
      al == IF cfg.pocca THEN B.al ELSE A.al
      after(q, l, a) == [on |-> TRUE, q |-> q, cap |-> x[d].cap, lim |-> l, al |-> a]
      failed == NoMem(r, f) \/ SilentNoMem(r, f) \/ (r = "length_error" /\ cfg.exc /\ Len(B.q) > MaxOf(B.lim, al))
  IN
  /\ A.on /\ B.on
  /\ IF d = s THEN r = "ok" /\ Same
     ELSE \/ /\ r = "ok" /\ Len(B.q) <= MaxOf(B.lim, al) /\ CapFor(Len(B.q), MaxOf(B.lim, al), x[d].cap)
             /\ Set1(d, after(B.q, B.lim, al))
          \/ /\ failed
             /\ LET l == LimAfter(A, B, x[d]) a == x[d].al IN
                  /\ a \in {A.al, al} /\ MaxOf(l, a) = x[d].max
                  /\ x[d].q \in {A.q, <<>>} /\ CapFor(Len(x[d].q), MaxOf(l, a), x[d].cap)
                  /\ Set1(d, after(x[d].q, l, a))
          \/ /\ ~cfg.exc /\ r = "ok" /\ Len(B.q) > MaxOf(B.lim, al) /\ CapFor(MaxOf(B.lim, al), MaxOf(B.lim, al), x[d].cap)
             /\ Set1(d, after(Pre(B.q, MaxOf(B.lim, al)), B.lim, al))
          \/ /\ Threw(r, f)
             /\ LET l == LimAfter(A, B, x[d]) a == x[d].al IN
                  /\ a \in {A.al, al} /\ MaxOf(l, a) = x[d].max
                  /\ Sane(x[d].q, Max2(Len(A.q), Len(B.q))) /\ CapFor(Len(x[d].q), MaxOf(l, a), x[d].cap)
                  /\ Set1(d, after(x[d].q, l, a))

MoveAssign(d, s, r, f, x) ==
  LET A == arr[d] B == arr[s]
      al == IF cfg.pocma THEN B.al ELSE A.al
      after(q, l, a) == [on |-> TRUE, q |-> q, cap |-> x[d].cap, lim |-> l, al |-> a]
      steal == cfg.pocma \/ SameAl(A.al, B.al)
      emptied(q) == [B EXCEPT !.q = q, !.cap = x[s].cap]
      tooLong == r = "length_error" /\ cfg.exc /\ Len(B.q) > MaxOf(B.lim, al)
  IN
  /\ A.on /\ B.on
  /\ IF d = s THEN r = "ok" /\ Same
     ELSE \/ /\ r = "ok" /\ Len(B.q) <= MaxOf(B.lim, al) /\ CapFor(Len(B.q), MaxOf(B.lim, al), x[d].cap)
             /\ CapFor(0, Mx(B), x[s].cap)
             /\ Set2(d, after(B.q, B.lim, al), s, emptied(<<>>))
          \/ /\ ~steal /\ (NoMem(r, f) \/ SilentNoMem(r, f) \/ tooLong)
             /\ LET l == LimAfter(A, B, x[d]) IN
                  /\ x[d].al = A.al /\ MaxOf(l, A.al) = x[d].max
                  /\ x[d].q \in {A.q, <<>>} /\ CapFor(Len(x[d].q), MaxOf(l, A.al), x[d].cap)
                  /\ x[s].q \in (IF cfg.exc THEN {B.q} ELSE {B.q, <<>>}) /\ x[s].cap = B.cap
                  /\ Set2(d, after(x[d].q, l, A.al), s, emptied(x[s].q))
          \/ /\ ~cfg.exc /\ r = "ok" /\ Len(B.q) > MaxOf(B.lim, al) /\ CapFor(MaxOf(B.lim, al), MaxOf(B.lim, al), x[d].cap)
             /\ x[s].q \in {B.q, <<>>} /\ x[s].cap = B.cap
             /\ Set2(d, after(Pre(B.q, MaxOf(B.lim, al)), B.lim, al), s, emptied(x[s].q))
          \/ /\ ~steal /\ Threw(r, f)
             /\ LET l == LimAfter(A, B, x[d]) IN
                  /\ x[d].al = A.al /\ MaxOf(l, A.al) = x[d].max
                  /\ Sane(x[d].q, Max2(Len(A.q), Len(B.q))) /\ CapFor(Len(x[d].q), MaxOf(l, A.al), x[d].cap)
                  /\ Sane(x[s].q, Len(B.q))
                  /\ Set2(d, after(x[d].q, l, A.al), s, emptied(x[s].q))

-----------------------------------------------------------------------------
\* properties

TypeOK == \A s \in Slots : arr[s].on \in BOOLEAN /\ arr[s].cap \in Nat
\* size <= capacity, size <= maximum size; capacity never exceeds the (rounded) maximum
Bounded == \A s \in Slots : arr[s].on =>
             /\ Len(arr[s].q) <= arr[s].cap
             /\ Len(arr[s].q) <= Mx(arr[s])
             /\ arr[s].cap <= RoundUp(Mx(arr[s]))
OffIsEmpty == \A s \in Slots : ~arr[s].on => arr[s] = Off

\* element objects and memory blocks that must exist
RECURSIVE SumLen(_, _)
SumLen(a, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE y \in S : TRUE IN Len(a[s].q) + SumLen(a, S \ {s})
Live(a) == SumLen(a, DOMAIN a)
Holding(a) == {s \in DOMAIN a : a[s].on /\ a[s].cap > 0}
\* number of blocks of `units` from allocator al that must be outstanding
Blocks(a, al, units) == Cardinality({s \in Holding(a) : a[s].al = al /\ a[s].cap \div Unit = units})
=============================================================================
