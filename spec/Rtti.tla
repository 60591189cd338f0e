-------------------------------- MODULE Rtti --------------------------------
(* Runtime casts over one object of a class hierarchy.                        *)
(*                                                                            *)
(* cfg: bases  class -> sequence of its declared bases, in order              *)
(*      ids    class -> declared identity bytes (at most 16)                  *)
(*      top    class of the complete object                                   *)
(* The state is the subobject the current pointer designates, 0 for null.     *)
(* Classes are numbered so that bases come before the classes derived from    *)
(* them, and no class occurs twice in an object.                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Null == 0
Range(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Subobjects(_)
Subobjects(c) == {c} \cup UNION {Subobjects(b) : b \in Range(cfg.bases[c])}

Start(c, r) == arr' = c /\ c \in Subobjects(cfg.top) /\ r
\* language-level conversion to a declared base
Up(b, r) == arr # Null /\ b \in Range(cfg.bases[arr]) /\ arr' = b /\ r
\* found: the cast gave an address; at: subobjects with that address and the asked type
Cast(q, found, at) ==
  IF arr # Null /\ q \in Subobjects(cfg.top)
  THEN found /\ q \in at /\ arr' = q
  ELSE ~found /\ arr' = Null
\* asking without moving the pointer
Ask(q, yes) == arr # Null /\ yes = (q \in Subobjects(cfg.top)) /\ UNCHANGED arr
Drop == arr' = Null

Pad(b) == [k \in 1..16 |-> IF k <= Len(b) THEN b[k] ELSE 0]
Less(a, b) == \E k \in 1..16 : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
\* asking, in several ways, whether there is a subobject of an identity that need not be any class's
AskAny(bytes, answers) ==
  /\ arr # Null /\ UNCHANGED arr
  /\ LET yes == \E c \in Subobjects(cfg.top) : Pad(cfg.ids[c]) = bytes IN
     \A k \in 1..Len(answers) : answers[k] = (IF yes THEN 1 ELSE 0)
Ident(c, bytes) == bytes = Pad(cfg.ids[c]) /\ UNCHANGED arr
Order(c, d, lt, eq, gt) ==
  LET a == Pad(cfg.ids[c]) b == Pad(cfg.ids[d]) IN
  /\ lt = Less(a, b) /\ eq = (a = b) /\ gt = Less(b, a)
  /\ UNCHANGED arr

TypeOK == arr \in 0..Len(cfg.bases)
\* the pointer never leaves the object
InObject == arr # Null => arr \in Subobjects(cfg.top)
Unambiguous == \A c, d \in Subobjects(cfg.top) : c # d => Range(cfg.bases[c]) \cap Range(cfg.bases[d]) = {}
=============================================================================
