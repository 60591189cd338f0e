-------------------------------- MODULE Mono --------------------------------
(* Monotonic buffer resource: blocks are carved from the initial buffer and   *)
(* then from chunks obtained upstream; only release gives anything back.      *)
(*                                                                            *)
(* cfg: buf    size of the initial buffer, 0: none                            *)
(*      base   its address modulo Wrap                                        *)
(*      huge   requests of at least this size cannot be represented           *)
(* arr: chunks live chunks, each [id, n, al, base]                            *)
(*      blocks blocks since the last release, each [c, at, n]; c = 0: initial *)
(* ups is the list of calls that reached upstream in a step:                   *)
(*   [k |-> "a", id, n, al, base] obtained, [k |-> "f", ...] refused,          *)
(*   [k |-> "d", id, n, al, base] returned                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Wrap == 4096
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(q) == {q[k] : k \in 1..Len(q)}
Fill == Max({0} \cup {b.at + b.n : b \in {x \in Range(arr.blocks) : x.c = 0}})
Aligned(base, at, al) == (base + at) % al = 0
RoundUp(base, at, al) == at + ((al - ((base + at) % al)) % al)
\* nothing was obtained upstream yet and the request fits behind the last block of the initial buffer
FitsInitial(n, al) ==
  /\ arr.chunks = <<>> /\ cfg.buf > 0 /\ n < cfg.huge
  /\ RoundUp(cfg.base, Fill, al) + n <= cfg.buf
Got(ups) == SelectSeq(ups, LAMBDA u : u.k = "a")
ChunkOf(u) == [id |-> u.id, n |-> u.n, al |-> u.al, base |-> u.base]
NewChunks(ups) == arr.chunks \o [k \in 1..Len(Got(ups)) |-> ChunkOf(Got(ups)[k])]
Chunk(chunks, c) == IF c = 0 THEN [id |-> 0, n |-> cfg.buf, al |-> 1, base |-> cfg.base]
                    ELSE CHOOSE x \in Range(chunks) : x.id = c
Disjoint(a, b) == a.c # b.c \/ a.at + a.n <= b.at \/ b.at + b.n <= a.at \/ a.n = 0 \/ b.n = 0
\* (compared with TRUE where used in steps, so that it is one condition and not a choice of branches)
InPlace(b, al, chunks) ==
  /\ b.c = 0 \/ \E x \in Range(chunks) : x.id = b.c
  /\ LET x == Chunk(chunks, b.c) IN b.at >= 0 /\ b.at + b.n <= x.n /\ Aligned(x.base, b.at, al)
  /\ \A o \in Range(arr.blocks) : Disjoint(b, o)
OnlyRequests(ups) == \A k \in 1..Len(ups) : ups[k].k \in {"a", "f"}
Honest(ups) == \A k \in 1..Len(ups) : ups[k].k = "a" => ups[k].base % ups[k].al = 0

\* intact: the content of all earlier blocks is as written
Allocate(n, al, r, c, at, ups, intact) ==
  /\ intact /\ OnlyRequests(ups) /\ Honest(ups)
  /\ IF FitsInitial(n, al)
     THEN /\ r = "ok" /\ c = 0 /\ ups = <<>>
          /\ InPlace([c |-> c, at |-> at, n |-> n], al, arr.chunks) = TRUE
          /\ arr' = [arr EXCEPT !.blocks = Append(@, [c |-> c, at |-> at, n |-> n])]
     ELSE \/ /\ r = "ok" /\ n < cfg.huge
             /\ InPlace([c |-> c, at |-> at, n |-> n], al, NewChunks(ups)) = TRUE
             /\ arr' = [chunks |-> NewChunks(ups), blocks |-> Append(arr.blocks, [c |-> c, at |-> at, n |-> n])]
          \* only a refusal upstream or an impossible size makes a request fail
          \/ /\ r = "fail"
             /\ (n >= cfg.huge \/ \E k \in 1..Len(ups) : ups[k].k = "f") = TRUE
             /\ arr' = [arr EXCEPT !.chunks = NewChunks(ups)]
Deallocate(k, ups, intact) == intact /\ k \in 1..Len(arr.blocks) /\ ups = <<>> /\ UNCHANGED arr
\* the largest request: no less than the buffer or the upstream can serve alone, no more than both together
\* (cfg.room: the initial size asked for; sizes from cfg.huge on are not told apart)
Min2(a, b) == IF a < b THEN a ELSE b
MaxSize(v, ups, intact) ==
  /\ intact /\ ups = <<>>
  /\ v >= cfg.buf /\ v >= cfg.upmax
  /\ v <= Min2(cfg.huge, cfg.room + cfg.upmax)
  /\ \A b \in Range(arr.blocks) : b.n <= v
  /\ UNCHANGED arr
\* every chunk goes back once, as it came, in any order
AllBack(ups) ==
  /\ Len(ups) = Len(arr.chunks)
  /\ \A k \in 1..Len(ups) : ups[k].k = "d"
  /\ \A x \in Range(arr.chunks) : \E k \in 1..Len(ups) : ChunkOf(ups[k]) = x
Empty == [chunks |-> <<>>, blocks |-> <<>>]
Release(ups) == AllBack(ups) /\ arr' = Empty

-----------------------------------------------------------------------------
Separate == \A i, j \in 1..Len(arr.blocks) : i # j => Disjoint(arr.blocks[i], arr.blocks[j])
Inside == \A b \in Range(arr.blocks) : LET x == Chunk(arr.chunks, b.c) IN b.at >= 0 /\ b.at + b.n <= x.n
OneOwner == \A i, j \in 1..Len(arr.chunks) : i # j => arr.chunks[i].id # arr.chunks[j].id
=============================================================================
