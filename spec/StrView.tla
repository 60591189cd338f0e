------------------------------ MODULE StrView -------------------------------
(* Views of character sequences.                                              *)
(*                                                                            *)
(* arr.txt: the sequences viewed, in the order they were made; letters are    *)
(* numbers. arr.v: the views, [b, o, n]: sequence (0: none), start, length.   *)
(* cfg.fold: letters 1 and 2 count as the same. Positions and counts: -1 is   *)
(* the largest number there is.                                               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Huge == 1000000
Big(p) == IF p < 0 THEN Huge ELSE p
Nothing == [b |-> 0, o |-> 0, n |-> 0]
Start(k) == [txt |-> <<>>, v |-> [j \in 1..k |-> Nothing]]
Views == 1..Len(arr.v)
Text(v) == IF v.b = 0 THEN <<>> ELSE SubSeq(arr.txt[v.b], v.o + 1, v.o + v.n)
Fold(c) == IF cfg.fold /\ c = 1 THEN 2 ELSE c
Eq(c, d) == Fold(c) = Fold(d)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Min(x, y) == IF x < y THEN x ELSE y

\* -- what the operations give --------------------------------------------------------------------------------------
\* where the needle first is at or after a position; -1: nowhere
Find(t, needle, pos) ==
  LET S == {k \in 0..(Len(t) - Len(needle)) : k >= Big(pos) /\ \A j \in 1..Len(needle) : Eq(t[k + j], needle[j])}
  IN IF S = {} THEN -1 ELSE Least(S)
\* -1 less, 0 equal, 1 greater
Compare(t, u) ==
  LET D == {k \in 1..Min(Len(t), Len(u)) : ~Eq(t[k], u[k])}
  IN IF D # {} THEN (IF Fold(t[Least(D)]) < Fold(u[Least(D)]) THEN -1 ELSE 1)
     ELSE IF Len(t) = Len(u) THEN 0 ELSE IF Len(t) < Len(u) THEN -1 ELSE 1
InRange(v, pos) == Big(pos) <= v.n
Sub(v, pos, count) == [b |-> v.b, o |-> v.o + pos, n |-> Min(Big(count), v.n - pos)]
Times(c, k) == [j \in 1..k |-> c]
Padded(t, width, fill, adjust) ==
  IF width <= Len(t) THEN t
  ELSE IF adjust = "left" THEN t \o Times(fill, width - Len(t)) ELSE Times(fill, width - Len(t)) \o t

\* -- what they do --------------------------------------------------------------------------------------------------
Same == UNCHANGED arr
Let(s, v) == arr' = [arr EXCEPT !.v[s] = v]
Fresh(s, t) == arr' = [txt |-> Append(arr.txt, t), v |-> [arr.v EXCEPT ![s] = [b |-> Len(arr.txt) + 1, o |-> 0, n |-> Len(t)]]]
Clear(s) == Let(s, Nothing)
Copy(s, t) == Let(t, arr.v[s])
Swap(s, t) == arr' = [arr EXCEPT !.v[s] = arr.v[t], !.v[t] = arr.v[s]]
Prefix(s, n) == n <= arr.v[s].n /\ Let(s, [arr.v[s] EXCEPT !.o = @ + n, !.n = @ - n])
Suffix(s, n) == n <= arr.v[s].n /\ Let(s, [arr.v[s] EXCEPT !.n = @ - n])
SubView(s, t, pos, count, r) ==
  IF InRange(arr.v[s], pos) THEN r = "ok" /\ Let(t, Sub(arr.v[s], pos, count)) ELSE r = "range" /\ Same
\* rest: letters of the destination after those copied, which stay as they were
CopyOut(s, pos, count, r, ret, dest, mark) ==
  /\ Same
  /\ IF InRange(arr.v[s], pos)
     THEN LET t == Text(Sub(arr.v[s], pos, count)) IN
          r = "ok" /\ ret = Len(t) /\ Len(dest) >= Len(t) /\ dest = t \o Times(mark, Len(dest) - Len(t))
     ELSE r = "range" /\ dest = Times(mark, Len(dest))
At(s, pos, r, ret) ==
  /\ Same
  /\ IF Big(pos) < arr.v[s].n THEN r = "ok" /\ ret = Text(arr.v[s])[pos + 1] ELSE r = "range"
FindLetter(s, c, pos, ret) == Same /\ ret = Find(Text(arr.v[s]), <<c>>, pos)
FindView(s, t, pos, ret) == Same /\ ret = Find(Text(arr.v[s]), Text(arr.v[t]), pos)
\* rel: ==, !=, <, >, <=, >=
Comparison(s, t, ret, rel) ==
  LET c == Compare(Text(arr.v[s]), Text(arr.v[t])) IN
  Same /\ ret = c /\ rel = <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>>
\* the letters by every way of reading them
Walk(s, seqs, sizes, empty) ==
  /\ Same
  /\ \A k \in 1..Len(seqs) : seqs[k] = Text(arr.v[s])
  /\ \A k \in 1..Len(sizes) : sizes[k] = arr.v[s].n
  /\ empty = (arr.v[s].n = 0)
Out(s, width, fill, adjust, ret, after) == Same /\ ret = Padded(Text(arr.v[s]), width, fill, adjust) /\ after = 0

\* a view never leaves its sequence
Inside == \A j \in Views : LET v == arr.v[j] IN IF v.b = 0 THEN v = Nothing ELSE v.o >= 0 /\ v.n >= 0 /\ v.o + v.n <= Len(arr.txt[v.b])
=============================================================================
