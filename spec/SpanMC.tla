------------------------------- MODULE SpanMC -------------------------------
(* Exhaustive exploration of Span: one span taken through every chain. *)
EXTENDS Span, TLC, Json
CONSTANTS Size, Values
VARIABLE op
View == <<cfg, arr>>
MCInit == /\ cfg = [size |-> 1]
          /\ arr = Start([j \in 1..Size |-> 0], 1)
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)
S == arr.s[1]
MCStep ==
  \/ \E o \in 0..Size, n \in 0..Size, f \in BOOLEAN, c \in BOOLEAN : Make(1, o, n, Extent(f, n), c) /\ op' = <<"make", 1, o, n, Extent(f, n), c>>
  \/ \E x \in {-1, 0}, c \in BOOLEAN : MakeNone(1, x, c) /\ op' = <<"none", 1, x, c>>
  \/ \E n \in 0..S.n, f \in BOOLEAN : First(1, S, n, f) /\ op' = <<"first", 1, 1, n, f>>
  \/ \E n \in 0..S.n, f \in BOOLEAN : Last(1, S, n, f) /\ op' = <<"last", 1, 1, n, f>>
  \/ \E k \in 0..S.n, n \in -1..S.n, f \in BOOLEAN : Sub(1, S, k, n, f) /\ op' = <<"sub", 1, 1, k, n, f>>
  \/ ToDynamic(1, S) /\ op' = <<"todyn", 1, 1>>
  \/ ToFixed(1, S) /\ op' = <<"tofix", 1, 1>>
  \/ ToConst(1, S) /\ op' = <<"tocst", 1, 1>>
  \/ Copy(1, S) /\ op' = <<"copy", 1, 1>>
  \/ \E k \in 0..S.n, v \in Values : Write(S, k, v) /\ op' = <<"write", 1, k, v>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)
\* read-only spans write nothing
ReadOnly == [][S.c /\ S'.c => arr'.mem = arr.mem]_<<cfg, arr>>
\* sub-views of a span are inside it, unless a new span was made
Shrinks == [][op'[1] \notin {"make", "none"} => /\ S'.n <= S.n /\ S'.o >= S.o /\ S'.o + S'.n <= S.o + S.n
                                                /\ (S.c => S'.c)]_<<cfg, arr>>
=============================================================================
