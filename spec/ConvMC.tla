------------------------------- MODULE ConvMC -------------------------------
(* Exhaustive exploration of Conv over the lists of alternatives given. *)
EXTENDS Conv, TLC, Json, IOUtils
CONSTANTS Len3
VARIABLE op
View == <<cfg, arr>>
Lists == LET f == ndJsonDeserialize(IOEnv.LISTS_FILE) IN {f[k] : k \in 1..Len(f)}

MCInit == /\ cfg \in {[alts |-> l] : l \in Lists}
          /\ arr = Start
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

\* object numbers are not told apart here
MCStep ==
  \/ \E x \in Types, c \in Cats, v \in {0, 1} :
       LET j == ForConstruction(x, c, cfg.alts) k == ForAssignment(x, c, cfg.alts) IN
       /\ Clear(x, cfg.alts)
       /\ \/ (IF j # 0 THEN Hold(j, v, 0) ELSE UNCHANGED arr) /\ op' = <<"make", x, c, v>>
          \/ arr.i # 0 /\ (IF k # 0 THEN Hold(k, v, 0) ELSE UNCHANGED arr) /\ op' = <<"assign", x, c, v>>
  \/ \E j \in 1..Len(cfg.alts), v \in {0, 1} : Hold(j, v, 0) /\ op' = <<"put", j, "-", v>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* -- about the choice itself, for all lists of two or three alternatives -------------------------------------------
Pairs == Types \X Types
Swap2(l) == <<l[2], l[1]>>
Turn3(l) == <<l[2], l[3], l[1]>>
Same(l, m, f) == \A x \in Types, c \in Cats :
                      LET p == ForConstruction(x, c, l) q == ForConstruction(x, c, m) IN (p = 0) = (q = 0) /\ (p # 0 => q = f[p])
\* the order of the alternatives does not matter
OrderFree == /\ \A l \in Pairs : Same(l, Swap2(l), <<2, 1>>)
             /\ Len3 => \A l \in Types \X Types \X Types : Same(l, Turn3(l), <<3, 1, 2>>)
\* a value of an alternative's own type goes there, unless it is listed twice
OwnType == \A l \in Pairs, x \in Types : x \in {l[1], l[2]} /\ l[1] # l[2] => l[ForConstruction(x, "r", l)] = x
\* nothing is lost in the alternative chosen, and an alternative listed twice is never chosen
NothingLost == \A l \in Pairs, x \in Types, c \in Cats :
                 LET p == ForConstruction(x, c, l) IN p # 0 => Lossless(x, l[p]) /\ l[1] # l[2]
\* an alternative that cannot take the value does not matter
Indifferent == \A l \in Pairs, x \in Types, c \in Cats :
                 ~Constructs(x, c, l[2]) => ForConstruction(x, c, l) = ForConstruction(x, c, <<l[1]>>)
\* two that could each take it alone: one is chosen, or the choice is refused
Single == \A l \in Pairs, x \in Types, c \in Cats :
            ForConstruction(x, c, l) # 0 => ForConstruction(x, c, <<l[ForConstruction(x, c, l)]>>) = 1
ASSUME OrderFree /\ OwnType /\ NothingLost /\ Indifferent /\ Single
=============================================================================
