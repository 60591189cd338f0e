------------------------------- MODULE OwnerMC ------------------------------
(* All histories over NS owners, two kinds and two resources. *)
EXTENDS Owner, TLC, Json
CONSTANTS NS, Fams
VARIABLES op, log
\* which block an owner holds matters only through the deleter that fits it
Canon(a) == [own |-> [s \in DOMAIN a.own |-> <<a.own[s].on, a.own[s].id # 0, a.own[s].del>>],
             raw |-> <<a.raw.id # 0, a.raw.del>>]
View == <<cfg, Canon(arr)>>
NO == NS + 2
K == 1..2
MCInit ==
  /\ \E f \in Fams, nf \in BOOLEAN, t \in BOOLEAN :
       /\ (t => f \in {1, 2, 3})
       /\ cfg = [fam |-> f, nullfail |-> nf, throws |-> t, size |-> <<8, 16>>, align |-> <<8, 16>>, cls |-> <<1, 2>>,
                 n |-> IF f = 4 THEN <<1, 2>> ELSE <<1, 1>>]
  /\ arr = [own |-> [s \in 1..NS |-> Off], obj |-> [i \in 1..NO |-> Gone], raw |-> NoRaw]
  /\ op = <<"init">> /\ log = <<>>
  /\ PrintT(<<"I", ToJson(<<cfg, Canon(arr)>>)>>)
DeathLog(id) == IF id = 0 THEN <<>> ELSE Each("x", id, arr.obj[id].k) \o <<Returned(id, arr.obj[id].k, arr.obj[id].m)>>
Least == CHOOSE i \in 1..NO : Fresh(i) /\ \A j \in 1..(i - 1) : ~Fresh(j)
MCStep ==
  \/ \E s \in Slots, k \in K, m \in 1..2, over \in BOOLEAN, r \in {"ok", "null", "alloc", "elem"} :
       LET id == IF r = "ok" \/ r = "elem" THEN Least ELSE 0
           f == IF r \in {"null", "alloc"} THEN "a" ELSE IF r = "elem" THEN "e" ELSE "n" IN
       /\ k + m <= 3 /\ (\E i \in 1..NO : Fresh(i))
       /\ log' = CASE r = "ok" -> BirthLog(id, k, m) \o DeathLog(arr.own[s].id)
                   [] r = "null" -> <<Refused(k, m)>> \o DeathLog(arr.own[s].id)
                   [] r = "alloc" -> <<Refused(k, m)>>
                   [] OTHER -> <<Obtained(id, k, m), Returned(id, k, m)>>
       /\ Make(s, k, m, 0, over, r, id, log')
       /\ op' = <<IF over THEN "makeo" ELSE "make", f, IF f = "n" THEN 0 ELSE 1, s, k, m>>
  \/ \E s \in Slots : log' = <<>> /\ NewEmpty(s, log') /\ op' = <<"new", "n", 0, s>>
  \/ \E s, u \in Slots :
       \/ log' = <<>> /\ MoveNew(s, u, log') /\ op' = <<"movenew", "n", 0, s, u>>
       \/ log' = (IF s = u THEN <<>> ELSE DeathLog(arr.own[s].id)) /\ MoveAssign(s, u, log') /\ op' = <<"movea", "n", 0, s, u>>
       \/ log' = <<>> /\ Swap(s, u, log') /\ op' = <<"swap", "n", 0, s, u>>
  \/ \E s \in Slots :
       \/ log' = DeathLog(arr.own[s].id) /\ Reset(s, log') /\ op' = <<"reset", "n", 0, s>>
       \/ log' = <<>> /\ Release(s, log') /\ op' = <<"release", "n", 0, s>>
       \/ log' = DeathLog(arr.own[s].id) /\ Put(s, log') /\ op' = <<"put", "n", 0, s>>
       \/ log' = <<>> /\ Adopt(s, log') /\ op' = <<"adopt", "n", 0, s>>
       \/ log' = DeathLog(arr.own[s].id) /\ Destroy(s, log') /\ op' = <<"dest", "n", 0, s>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, Canon(arr)>>), ToJson(op'), ToJson(<<cfg', Canon(arr')>>)>>)

\* a step destroys exactly the objects that stop existing, and constructs exactly those that begin to
Count(w, id) == Cardinality({i \in 1..Len(log') : log'[i][1] = w /\ log'[i][2] = id})
Was(id) == arr.obj[id].on
Is(id) == arr'.obj[id].on
Balance == [][\A id \in 1..NO :
                /\ Count("d", id) - Count("a", id) = (IF Was(id) THEN 1 ELSE 0) - (IF Is(id) THEN 1 ELSE 0)
                /\ (Was(id) /\ Is(id)) => Count("d", id) = 0
                /\ (cfg.fam # 5 /\ Was(id) /\ ~Is(id)) => Count("x", id) = cfg.n[arr.obj[id].k]
                /\ (~Was(id) \/ Is(id)) => Count("x", id) = 0]_<<cfg, arr>>
=============================================================================
