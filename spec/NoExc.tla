------------------------------- MODULE NoExc --------------------------------
(* A program without exceptions. A read that would have thrown ends the       *)
(* program; nothing else does. arr has two slots [t, v]: what is held (0:     *)
(* nothing) and its value. For a view of characters t is its length and the   *)
(* characters are v + 0, v + 1, ...                                           *)
(*                                                                            *)
(* cfg.comp: component. Suffix p: storage from a memory resource.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Comps == {"opt", "var", "uvar", "uvarp", "sv", "fn", "fnp"}
Slots == 1..2
\* kinds of content
Kinds == CASE cfg.comp \in {"opt", "fn", "fnp"} -> 1..1 [] cfg.comp = "sv" -> 1..3 [] OTHER -> 1..3
\* a variant is never without an alternative
MayBeEmpty == cfg.comp # "var"
\* what was moved from is empty
Drains == cfg.comp \in {"uvar", "uvarp", "fn", "fnp"}

\* reads that may be refused, and questions that are always answered (-1: not what was asked for)
Reads ==
  CASE cfg.comp = "opt" -> {"l", "cl", "r", "cr"}
    [] cfg.comp = "var" -> {"il", "icl", "ir", "icr", "tl", "tcl", "tr", "tcr"}
    [] cfg.comp \in {"uvar", "uvarp"} -> {"val", "ref", "cref", "cval", "rval", "base", "cbase"}
    [] cfg.comp = "sv" -> {"at", "substr", "copy"}
    [] OTHER -> {"call", "ccall"}
Asks ==
  CASE cfg.comp = "opt" -> {"or", "orr"}
    [] cfg.comp = "var" -> {"if", "cif", "ift", "cift"}
    [] cfg.comp \in {"uvar", "uvarp"} -> {"if", "cif", "bif"}
    [] OTHER -> {}
\* what is asked for: a kind of content, or a position in the view
Wanted == CASE cfg.comp = "opt" -> {1} [] cfg.comp \in {"fn", "fnp"} -> {1} [] cfg.comp = "sv" -> 0..5 [] OTHER -> 1..3
Base(e) == e \in {"base", "cbase", "bif"}
\* contents 2 and 3 have a common base that can be asked for
Allowed(s, e, t) ==
  LET x == arr[s] IN
  CASE cfg.comp = "sv" -> IF e = "at" THEN t < x.t ELSE t <= x.t
    [] Base(e) -> x.t \in {2, 3}
    [] OTHER -> x.t = t
\* what an allowed read gives: the value; of a view, the character or how many are left
Gives(s, e, t) ==
  LET x == arr[s] IN
  CASE cfg.comp = "sv" -> IF e = "at" THEN x.v + t ELSE x.t - t
    [] OTHER -> x.v

Put(s, t, v)  == t \in Kinds /\ arr' = [arr EXCEPT ![s] = [t |-> t, v |-> v]]
Clear(s)      == MayBeEmpty /\ arr' = [arr EXCEPT ![s] = [t |-> 0, v |-> 0]]
Copy(s, d)    == s # d /\ arr' = [arr EXCEPT ![d] = arr[s]]
Move(s, d)    == s # d /\ arr' = [arr EXCEPT ![d] = arr[s], ![s] = IF Drains THEN [t |-> 0, v |-> 0] ELSE @]
Swap(s, d)    == arr' = [arr EXCEPT ![d] = arr[s], ![s] = arr[d]]
\* out: [end: the program ended; v: what was read]
Read(s, e, t, out) ==
  /\ e \in Reads
  /\ IF Allowed(s, e, t) THEN ~out.end /\ out.v = Gives(s, e, t) ELSE out.end
  /\ UNCHANGED arr
Ask(s, e, t, out) ==
  /\ e \in Asks
  /\ ~out.end /\ out.v = IF Allowed(s, e, t) THEN Gives(s, e, t) ELSE -1
  /\ UNCHANGED arr

\* -- what must hold ----------------------------------------------------------
TypeOK == \A s \in Slots : arr[s].t \in Kinds \cup (IF MayBeEmpty THEN {0} ELSE {})
\* of the kinds that can be asked for exactly the held one can be read
OneReadable == cfg.comp # "sv" => \A s \in Slots, e \in Reads : ~Base(e) =>
                 Cardinality({t \in Wanted : Allowed(s, e, t)}) = IF arr[s].t = 0 THEN 0 ELSE 1
\* whatever can be read by position can also be reached from the front
Prefix == cfg.comp = "sv" => \A s \in Slots, e \in Reads, t \in Wanted : Allowed(s, e, t) => \A u \in 0..t : Allowed(s, e, u)
=============================================================================
