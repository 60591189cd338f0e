-------------------------------- MODULE Span --------------------------------
(* Spans over a sequence of elements.                                         *)
(*                                                                            *)
(* cfg.size: bytes of an element. arr.mem: the elements. arr.s: the spans,    *)
(* [o, n, x, c]: first element (-1: no elements at all), number of elements,  *)
(* extent (-1: known at run time), whether elements can only be read.         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

None(x, c) == [o |-> -1, n |-> 0, x |-> x, c |-> c]
Start(vals, k) == [mem |-> vals, s |-> [j \in 1..k |-> None(-1, FALSE)]]
Span(o, n, x, c) == [o |-> o, n |-> n, x |-> x, c |-> c]
Extent(fixed, n) == IF fixed THEN n ELSE -1
Put(d, s) == arr' = [arr EXCEPT !.s[d] = s]
Elements(s) == [j \in 1..s.n |-> arr.mem[s.o + j]]

\* a span of n elements from the o-th on, made from them in some way
Make(d, o, n, x, c) == x \in {-1, n} /\ o >= 0 /\ o + n <= Len(arr.mem) /\ Put(d, Span(o, n, x, c))
MakeNone(d, x, c) == x \in {-1, 0} /\ Put(d, None(x, c))

\* -- sub-views; fixed: the counts are compile-time constants -------------------------------------------------------
\* no elements at all has no first element to move from, other than by nothing
Moved(s, k) == IF s.o = -1 THEN -1 ELSE s.o + k
First(d, s, n, fixed) == n <= s.n /\ Put(d, Span(s.o, n, Extent(fixed, n), s.c))
Last(d, s, n, fixed) == n <= s.n /\ Put(d, Span(Moved(s, s.n - n), n, Extent(fixed, n), s.c))
\* n = -1: all the rest; its extent is then fixed when the span's own extent is
Sub(d, s, k, n, fixed) ==
  /\ k <= s.n /\ (n = -1 \/ n <= s.n - k)
  /\ LET m == IF n = -1 THEN s.n - k ELSE n
         x == IF ~fixed THEN -1 ELSE IF n = -1 /\ s.x = -1 THEN -1 ELSE m
     IN Put(d, Span(Moved(s, k), m, x, s.c))

\* -- conversions ---------------------------------------------------------------------------------------------------
ToDynamic(d, s) == Put(d, [s EXCEPT !.x = -1])
ToFixed(d, s) == Put(d, [s EXCEPT !.x = s.n])
ToConst(d, s) == Put(d, [s EXCEPT !.c = TRUE])
Copy(d, s) == Put(d, s)
Write(s, k, v) == ~s.c /\ k < s.n /\ arr' = [arr EXCEPT !.mem[s.o + k + 1] = v]

\* which conversions there are: a span or an array, of extent x (-1 run time) and read-only or not, to a span;
\* t: the type of the elements (a span of a class is not one of its base)
Fits(from, to) == from.t = to.t /\ (to.c \/ ~from.c) /\ (to.x = -1 \/ from.x = -1 \/ to.x = from.x)
Implicit(from, to) == Fits(from, to) /\ (to.x = -1 \/ from.x # -1)

\* everything a span says of itself, by every way of asking
Says(s, o) ==
  /\ o.o = s.o /\ o.n = s.n /\ o.x = s.x
  /\ o.bytes = s.n * cfg.size
  /\ o.empty = (s.n = 0)
  /\ \A k \in 1..Len(o.seqs) : o.seqs[k] = Elements(s)
  /\ o.back = [j \in 1..s.n |-> Elements(s)[s.n + 1 - j]]
  /\ o.same  \* addresses of elements and ends agree with the first element's
Inside == \A j \in 1..Len(arr.s) : LET s == arr.s[j] IN
            /\ (s.o = -1 => s.n = 0) /\ (s.o # -1 => s.o + s.n <= Len(arr.mem))
            /\ s.x \in {-1, s.n}
=============================================================================
