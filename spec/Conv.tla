-------------------------------- MODULE Conv --------------------------------
(* Converting a value into a variant: which alternative is chosen.            *)
(*                                                                            *)
(* cfg.alts: the alternatives, a sequence of type names. A variant is         *)
(* [i, v, b]: held alternative (0: not constructed), its value, and the       *)
(* number of the object holding it (0 for numbers, pointers and aggregates).   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

\* -- the types -----------------------------------------------------------------------------------------------------
\* integers: [unsigned, bits]
Bits == [b |-> <<TRUE, 1>>, c |-> <<FALSE, 8>>, s |-> <<FALSE, 16>>, i |-> <<FALSE, 32>>, u |-> <<TRUE, 32>>, l |-> <<FALSE, 64>>, ul |-> <<TRUE, 64>>]
Flt == [f |-> 32, d |-> 64]
Ints == DOMAIN Bits
Flts == DOMAIN Flt
Arith == Ints \cup Flts
\* classes made implicitly from a value of another type
Made == [ci |-> "i", cd |-> "d", cb |-> "b", as |-> "i", cs |-> "p"]
\* xi: made explicitly from an integer; ob, od: a base and a class derived from it; ag: an aggregate; mo: cannot be
\* copied; ti: converts to an integer; as: cannot be assigned numbers; p: a pointer to characters
Classes == DOMAIN Made \cup {"xi", "ob", "od", "ag", "mo", "ti"}
Types == Arith \cup Classes \cup {"p"}
Cats == {"l", "cl", "r"}

\* every value of x has a place in y
Holds(x, y) == LET m == Bits[x] n == Bits[y] IN IF m[1] THEN (IF n[1] THEN n[2] >= m[2] ELSE n[2] > m[2]) ELSE ~n[1] /\ n[2] >= m[2]
Narrow(x, y) ==
  IF x \in Ints /\ y \in Ints THEN ~Holds(x, y)
  ELSE IF x \in Flts /\ y \in Flts THEN Flt[y] < Flt[x]
  ELSE IF x = "p" THEN y # "p" ELSE x # y

\* -- how a value of type x and category c becomes a parameter of type y --------------------------------------------
\* none, or [r: 0 as it is, 1 promoted, 2 converted, 3 by a class; by: the class; then: rank of the rest]
None == [r |-> 9, by |-> "", then |-> 0]
Std(r) == [r |-> r, by |-> "", then |-> 0]
Rank(x, y) ==
  CASE x = y -> 0
    [] x \in {"b", "c", "s"} /\ y = "i" -> 1
    [] x = "f" /\ y = "d" -> 1
    [] x \in Arith /\ y \in Arith -> 2
    [] x = "p" /\ y = "b" -> 2
    [] x = "od" /\ y = "ob" -> 2
    [] OTHER -> 9
Way(x, y) ==
  IF Rank(x, y) # 9 THEN Std(Rank(x, y))
  ELSE IF y \in DOMAIN Made /\ Rank(x, Made[y]) # 9 THEN [r |-> 3, by |-> y, then |-> Rank(x, Made[y])]
  ELSE IF x = "ti" /\ y \in Arith THEN [r |-> 3, by |-> x, then |-> Rank("i", y)]
  ELSE None
\* one that loses nothing on the way
Lossless(x, y) ==
  LET w == Way(x, y) IN
  CASE w.r = 9 -> FALSE
    [] w.r < 3 -> (x \in Arith \cup {"p"} => ~Narrow(x, y))
    [] w.by = y -> ~Narrow(x, Made[y])
    [] OTHER -> ~Narrow("i", y)
Copyable(x, c, y) == ~(x = "mo" /\ y = "mo" /\ c # "r")
Assignable(x, y) == ~(y = "as" /\ x \in Arith)

Constructs(x, c, y) == Lossless(x, y) /\ Copyable(x, c, y)
Assigns(x, c, y) == Constructs(x, c, y) /\ Assignable(x, y)
\* whether list-initialisation through a conversion function narrows is not clear: not asked
Clear(x, alts) == x = "ti" => \A j \in 1..Len(alts) : alts[j] \notin Arith \ {"i", "l"}

Better(w, z) == w.r < z.r \/ (w.r = 3 /\ z.r = 3 /\ w.by = z.by /\ w.then < z.then)
Chosen(x, alts, can) == {j \in can : \A k \in can \ {j} : Better(Way(x, alts[j]), Way(x, alts[k]))}
\* the alternative, or 0 when none or several are best
Pick(x, alts, can) == LET s == Chosen(x, alts, can) IN IF Cardinality(s) = 1 THEN CHOOSE j \in s : TRUE ELSE 0
ForConstruction(x, c, alts) == Pick(x, alts, {j \in 1..Len(alts) : Constructs(x, c, alts[j])})
\* where none can be assigned the value itself, a variant made of it is assigned
ForAssignment(x, c, alts)   == LET j == Pick(x, alts, {k \in 1..Len(alts) : Assigns(x, c, alts[k])}) IN
                               IF j # 0 THEN j ELSE ForConstruction(x, c, alts)

\* -- the variant ---------------------------------------------------------------------------------------------------
Start == [i |-> 0, v |-> 0, b |-> 0]
Hold(j, v, b) == arr' = [i |-> j, v |-> v, b |-> b]
\* ok: the conversion exists; fresh: number of an object made now
Fresh(j, b) == IF cfg.alts[j] \in Classes \ {"ag"} THEN b > arr.b ELSE b = 0
Make(x, c, v, ok, b) ==
  LET j == ForConstruction(x, c, cfg.alts) IN
  /\ Clear(x, cfg.alts)
  /\ ok = (j # 0)
  /\ IF ok THEN Hold(j, v, b) /\ Fresh(j, b) ELSE UNCHANGED arr
Assign(x, c, v, ok, b) ==
  LET j == ForAssignment(x, c, cfg.alts) IN
  /\ Clear(x, cfg.alts) /\ arr.i # 0
  /\ ok = (j # 0)
  /\ IF ~ok THEN UNCHANGED arr
     ELSE Hold(j, v, b) /\ IF arr.i = j THEN b = arr.b ELSE Fresh(j, b)
Put(j, v, b) == j \in 1..Len(cfg.alts) /\ Hold(j, v, b) /\ Fresh(j, b)

TypeOK == arr.i \in 0..Len(cfg.alts)
=============================================================================
