------------------------------- MODULE SysMem -------------------------------
(* Resources at the bottom: the one on the system's heap ("sys"), the one     *)
(* that has nothing ("null") and the one that passes requests on to an        *)
(* o1heap ("heap").                                                           *)
(*                                                                            *)
(* cfg.kind; cfg.exc: with exceptions; cfg.most: the strictest alignment that *)
(* can be had; cfg.size: what the heap was made with.                         *)
(* arr: blocks, [n, a]: bytes and alignment; n = -1: none.                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

None == [n |-> -1, a |-> 0]
Start(k) == [j \in 1..k |-> None]
Same == UNCHANGED arr
Live == {j \in 1..Len(arr) : arr[j].n >= 0}
Failed == IF cfg.exc THEN "bad" ELSE "null"

\* n: bytes, Huge: more than there can be. spare: the heap has room. An o1heap has no blocks of nothing.
Huge == 1000000000
Possible(n, a, spare) == cfg.kind # "null" /\ a <= cfg.most /\ n < Huge /\ (cfg.kind = "heap" => spare /\ n > 0)
\* seen: [off, clash, held, kept]: address modulo the alignment; shares bytes with another block; blocks the heap
\* or the system has given; every block has what was written into it
Fine(s) == ~s.clash /\ s.kept /\ s.off = 0
Held(s) == s.held = Cardinality({j \in 1..Len(arr') : arr'[j].n >= 0})
Allocate(b, n, a, spare, r, s) ==
  /\ arr[b] = None
  /\ IF Possible(n, a, spare) THEN r = "ok" /\ arr' = [arr EXCEPT ![b] = [n |-> n, a |-> a]] ELSE r = Failed /\ Same
  /\ Fine(s) /\ Held(s)
Deallocate(b, r, s) ==
  /\ arr[b] # None
  /\ r = "ok" /\ arr' = [arr EXCEPT ![b] = None]
  /\ Fine(s) /\ Held(s)
\* the contents stay as far as both sizes go; a failure leaves the block as it was, and may be reported either way
Reallocate(b, n, a, r, s) ==
  /\ cfg.kind = "sys" /\ arr[b] # None /\ n > 0
  /\ IF Possible(n, a, TRUE) THEN r = "ok" /\ arr' = [arr EXCEPT ![b] = [n |-> n, a |-> a]]
     ELSE r \in {Failed, "null"} /\ Same
  /\ Fine(s) /\ Held(s)
\* the resource that has nothing cannot reallocate either, and takes back anything
Refuse(r) == cfg.kind = "null" /\ Same /\ r \in {Failed, "null"}
Ignore(r) == cfg.kind = "null" /\ Same /\ r = "ok"
\* most: -1: no limit
MaxSize(ret) == Same /\ ret = CASE cfg.kind = "sys" -> -1 [] cfg.kind = "null" -> 0 [] cfg.kind = "heap" -> cfg.size
\* other: "self", "same" (got from the library a second time), "null", "sys", "mine"
Equal(other, eq, ne) ==
  /\ cfg.kind # "heap" /\ Same
  /\ eq = (other = "self" \/ other = "same" \/ other = cfg.kind)
  /\ ne = ~eq

TypeOK == \A j \in 1..Len(arr) : arr[j].n \in -1..Huge /\ (arr[j].n >= 0 => arr[j].a <= cfg.most)
Nothing == cfg.kind = "null" => Live = {}
=============================================================================
