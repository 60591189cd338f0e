------------------------------- MODULE FwdMC --------------------------------
(* Every way to pass something on, with every combination of categories. *)
EXTENDS Fwd, TLC, Json
VARIABLE op
View == <<cfg, arr>>
MCInit == /\ \E c \in DOMAIN Entries : cfg = [comp |-> c]
          /\ arr = 0
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)
Cats == {"l", "cl", "r", "cr"}
Lists(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<[c |-> c, v |-> 1]>> : c \in Cats}
            ELSE {<<[c |-> c, v |-> 1], [c |-> d, v |-> 2]>> : c \in Cats, d \in Cats}
Given(e) == IF e.does = "call" THEN {[j \in 1..4 |-> [c |-> CallCats[j], v |-> j]]} ELSE UNION {Lists(n) : n \in e.lo..e.hi}
MCStep == /\ arr = 0
          /\ \E n \in DOMAIN Entries[cfg.comp] : LET e == Entries[cfg.comp][n] IN
             \E a \in Given(e) :
               /\ Pass(n, a, a, IF e.does = "make" THEN 1 ELSE 0, IF e.does = "set" THEN 1 ELSE 0,
                       IF e.does = "same" /\ a[1].c # "r" THEN 1 ELSE 0, IF e.il THEN <<3, 4>> ELSE <<>>)
               /\ op' = <<"pass", n, a>>
MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)
=============================================================================
