------------------------------ MODULE VisitMC -------------------------------
(* Exhaustive exploration of Visit inside small bounds. *)
EXTENDS Visit, TLC, Json
CONSTANTS Vals, Wide
VARIABLE op
View == <<cfg, arr>>

P(t, f) == [t |-> t, f |-> f]
One(t, f) == <<P(t, f)>>
Sets == <<
  <<One(1, "c"), One(0, "c")>>,
  <<One(1, "l"), One(1, "r"), One(0, "u")>>,
  <<One(1, "c"), One(1, "l"), One(1, "r"), One(0, "c")>>,
  <<One(0, "u"), One(2, "c")>>,
  <<One(0, "c"), One(0, "u"), One(3, "l")>>,
  <<<<P(1, "c"), P(0, "c")>>, <<P(0, "c"), P(4, "c")>>, <<P(1, "c"), P(4, "c")>>, <<P(0, "c"), P(0, "c")>>>>,
  <<<<P(0, "u"), P(0, "u")>>, <<P(1, "l"), P(0, "c")>>, <<P(1, "l"), P(4, "l")>>>> >>
Pools == {<<<<1, 2, 3>>, <<1, 4>>, <<5>>>>}
Keep == <<FALSE, FALSE, TRUE, TRUE, FALSE>>
Cats == {"l", "cl", "r", "cr"}
Modes == {"read", "write", "take", "throw", "ref"}
Triples == {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>}

MCInit == /\ cfg \in {[ty |-> t, keep |-> Keep, sets |-> Sets] : t \in Pools}
          /\ arr = [s \in 1..Len(cfg.ty) |-> [i |-> 0, v |-> 0]]
          /\ op = <<"init">>
          /\ PrintT(<<"I", ToJson(<<cfg, arr>>)>>)

Go(ss, cs, m, w) == /\ (IF Outcome(ss, m) = "bad" THEN UNCHANGED arr ELSE Visitor(ss, cs, m, w))
                    /\ op' = <<"visit", m, w, ss, cs>>
MCStep ==
  \/ \E s \in Slots, i \in 1..3, v \in Vals : Put(s, i, v) /\ op' = <<"put", s, i, v>>
  \/ \E s \in Slots : Lose(s) /\ op' = <<"lose", s>>
  \/ \E m \in {"read", "throw"} : Go(<<>>, <<>>, m, 1)  \* no variant at all: the visitor is still called once
  \/ \E s \in Slots, c \in Cats, m \in Modes : Go(<<s>>, <<c>>, m, 1)
  \/ \E s, u \in Slots, c, d \in Cats, m \in {"write", "take", "ref"} : (Wide \/ c = d) /\ Go(<<s, u>>, <<c, d>>, m, 0)
  \/ \E ss \in Triples, c \in Cats, d \in {"cl", "r"}, e \in {"l", "r"}, m \in {"write", "ref"} : (Wide \/ d = "cl") /\ Go(ss, <<c, d, e>>, m, 1)
  \/ \E s \in Slots, c \in Cats, x \in 1..5 : UNCHANGED arr /\ op' = <<"pick", x, 0, <<s>>, <<c>>>>
  \/ \E s, u \in Slots, c, d \in Cats, x \in 6..7 : (Wide \/ c = d) /\ UNCHANGED arr /\ op' = <<"pick", x, 0, <<s, u>>, <<c, d>>>>

MCNext == UNCHANGED cfg /\ MCStep
Emit == PrintT(<<"E", ToJson(<<cfg, arr>>), ToJson(op'), ToJson(<<cfg', arr'>>)>>)

\* every overload set has exactly one best callable for everything it can be given
Unambiguous ==
  \A s, u \in Slots, c, d \in Cats : Has(s) /\ Has(u) =>
    /\ \A x \in 1..5 : \E y \in 1..Len(Sets[x]) : Best(Sets[x], <<TypeOf(s)>>, <<c>>) = {y}
    /\ \A x \in 6..7 : \E y \in 1..Len(Sets[x]) : Best(Sets[x], <<TypeOf(s), TypeOf(u)>>, <<c, d>>) = {y}
\* visiting never changes which alternative is held, nor a variant it was not given, nor anything through const
Frame == [][op'[1] = "visit" => \A s \in Slots :
             /\ arr'[s].i = arr[s].i
             /\ (~\E k \in 1..Len(op'[4]) : op'[4][k] = s /\ op'[5][k] \in {"l", "r"}) => arr'[s] = arr[s]]_View
\* nothing happens when a variant is valueless
AllOrNothing == [][op'[1] = "visit" /\ (\E k \in 1..Len(op'[4]) : ~Has(op'[4][k])) => UNCHANGED arr]_View
=============================================================================
