------------------------------- MODULE MonoMC -------------------------------
(* A reference allocator over small buffers: bump allocation in the current   *)
(* piece, growing upstream by G beyond the request.                           *)
EXTENDS Mono, TLC, Json
CONSTANTS Bufs, Sizes, Aligns, MaxBlocks, MaxChunks
VARIABLES op, ups
View == <<cfg, arr>>
Huge == 1000
G == 4
MCInit ==
  /\ \E b \in Bufs, o \in {0, 1, 3} : (b = 0 => o = 0) /\ cfg = [buf |-> b, base |-> o, huge |-> Huge]
  /\ arr = Empty /\ op = <<"init">> /\ ups = <<>>
  /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)
Last == arr.chunks[Len(arr.chunks)]
FillOf(c) == Max({0} \cup {b.at + b.n : b \in {x \in Range(arr.blocks) : x.c = c}})
At(x, n, al) == RoundUp(x.base, FillOf(x.id), al)
MCAlloc(n, al, f) ==
  LET cur == IF arr.chunks = <<>> THEN Chunk(<<>>, 0) ELSE Last
      fits == n < Huge /\ cur.n > 0 /\ At(cur, n, al) + n <= cur.n
      u == [k |-> IF f = "a" THEN "f" ELSE "a", id |-> Len(arr.chunks) + 1, n |-> n + al + G, al |-> al, base |-> al] IN
  IF fits THEN f = "n" /\ ups' = <<>> /\ Allocate(n, al, "ok", cur.id, At(cur, n, al), ups', TRUE)
  ELSE IF n >= Huge THEN f = "n" /\ ups' = <<>> /\ Allocate(n, al, "fail", 0, 0, ups', TRUE)
  ELSE /\ Len(arr.chunks) < MaxChunks /\ ups' = <<u>>
       /\ IF f = "a" THEN Allocate(n, al, "fail", 0, 0, ups', TRUE)
          ELSE Allocate(n, al, "ok", u.id, RoundUp(u.base, 0, al), ups', TRUE)
MCStep ==
  \/ \E n \in Sizes, al \in Aligns, f \in {"n", "a"} :
       Len(arr.blocks) < MaxBlocks /\ MCAlloc(n, al, f) /\ op' = <<"alloc", f, IF f = "a" THEN 1 ELSE 0, n, al>>
  \/ \E k \in 1..Len(arr.blocks) : ups' = <<>> /\ Deallocate(k, ups', TRUE) /\ op' = <<"dealloc", "n", 0, k>>
  \/ /\ ups' = [k \in 1..Len(arr.chunks) |-> [k |-> "d", id |-> arr.chunks[k].id, n |-> arr.chunks[k].n,
                                              al |-> arr.chunks[k].al, base |-> arr.chunks[k].base]]
     /\ Release(ups')
     /\ op' = <<"release", "n", 0>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* a block is only taken away by a release, which takes all
OnlyRelease == [][op'[1] # "release" => SubSeq(arr'.blocks, 1, Len(arr.blocks)) = arr.blocks]_View
FailureKeeps == [][(op'[1] = "alloc" /\ op'[2] = "a") => arr'.blocks = arr.blocks]_View
\* the initial buffer is usable from its start after a release
Restart == [][op'[1] = "release" => arr' = Empty]_View
=============================================================================
