-------------------------------- MODULE Fwd ---------------------------------
(* Objects made, or assigned, by a component on behalf of its caller: what    *)
(* the caller gave is what the object gets.                                   *)
(*                                                                            *)
(* cfg.comp: component. arr: number of objects passed on so far.              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

\* ways to have an object made: [least, most]: arguments; il: a list comes first; does: "make", "set" (assigned to an object
\* that is there), "same" (the argument is itself such an object), "call" (a call with fixed parameters); soft: constness
\* of rvalues and of what is copied from is up to the component
E(lo, hi, il, does, soft) == [lo |-> lo, hi |-> hi, il |-> il, does |-> does, soft |-> soft]
Entries ==
  [opt |-> [value |-> E(1, 1, FALSE, "make", FALSE), evalue |-> E(1, 1, FALSE, "make", FALSE),
            inplace |-> E(0, 2, FALSE, "make", FALSE), inplacel |-> E(0, 1, TRUE, "make", FALSE),
            emplace |-> E(0, 2, FALSE, "make", FALSE), emplacel |-> E(0, 1, TRUE, "make", FALSE),
            make |-> E(0, 2, FALSE, "make", FALSE), makel |-> E(0, 1, TRUE, "make", FALSE),
            makev |-> E(1, 1, FALSE, "same", TRUE),
            assignoff |-> E(1, 1, FALSE, "make", FALSE), assignon |-> E(1, 1, FALSE, "set", FALSE),
            or |-> E(1, 1, FALSE, "make", FALSE), orr |-> E(1, 1, FALSE, "make", FALSE),
            from |-> E(1, 1, FALSE, "make", TRUE), efrom |-> E(1, 1, FALSE, "make", TRUE),
            fromoff |-> E(1, 1, FALSE, "make", TRUE), fromon |-> E(1, 1, FALSE, "set", TRUE)],
   var |-> [value |-> E(1, 1, FALSE, "make", FALSE),
            type |-> E(0, 2, FALSE, "make", FALSE), typel |-> E(0, 1, TRUE, "make", FALSE),
            index |-> E(0, 2, FALSE, "make", FALSE), indexl |-> E(0, 1, TRUE, "make", FALSE),
            emplacet |-> E(0, 2, FALSE, "make", FALSE), emplacetl |-> E(0, 1, TRUE, "make", FALSE),
            emplacei |-> E(0, 2, FALSE, "make", FALSE), emplaceil |-> E(0, 1, TRUE, "make", FALSE),
            assignoff |-> E(1, 1, FALSE, "make", FALSE), assignon |-> E(1, 1, FALSE, "set", FALSE)],
   uvar |-> [inplace |-> E(0, 2, FALSE, "make", FALSE), inplacel |-> E(0, 1, TRUE, "make", FALSE),
             emplace |-> E(0, 2, FALSE, "make", FALSE), emplacel |-> E(0, 1, TRUE, "make", FALSE),
             make |-> E(0, 2, FALSE, "make", FALSE), makel |-> E(0, 1, TRUE, "make", FALSE),
             pinplace |-> E(0, 2, FALSE, "make", FALSE), pinplacel |-> E(0, 1, TRUE, "make", FALSE),
             pemplace |-> E(0, 2, FALSE, "make", FALSE), pemplacel |-> E(0, 1, TRUE, "make", FALSE),
             pmake |-> E(0, 2, FALSE, "make", FALSE), pmakel |-> E(0, 1, TRUE, "make", FALSE),
             value |-> E(1, 1, FALSE, "same", TRUE), assign |-> E(1, 1, FALSE, "same", TRUE),
             pvalue |-> E(1, 1, FALSE, "same", TRUE), passign |-> E(1, 1, FALSE, "same", TRUE)],
   vla |-> [emplace |-> E(0, 2, FALSE, "make", FALSE), pemplace |-> E(0, 2, FALSE, "make", FALSE),
            push |-> E(1, 1, FALSE, "same", TRUE), ppush |-> E(1, 1, FALSE, "same", TRUE)],
   owner |-> [iface |-> E(0, 2, FALSE, "make", FALSE), unique |-> E(0, 2, FALSE, "make", FALSE)],
   func |-> [target |-> E(1, 1, FALSE, "same", TRUE), assign |-> E(1, 1, FALSE, "same", TRUE),
             ptarget |-> E(1, 1, FALSE, "same", TRUE), passign |-> E(1, 1, FALSE, "same", TRUE),
             call |-> E(4, 4, FALSE, "call", FALSE), discard |-> E(4, 4, FALSE, "call", FALSE)]]
\* the parameters of the call: A&, const A&, A&&, A
CallCats == <<"l", "cl", "r", "r">>

\* categories l, cl, r, cr: lvalue, const lvalue, rvalue, const rvalue
Seen(e, c) == IF e.soft /\ c # "r" THEN {"l", "cl", "cr"} ELSE {c}
\* saw: what the object got; made, set: objects made of arguments, assigned from arguments; copies: of objects or
\* arguments; list: what came in the list
Pass(entry, args, saw, made, set, copies, list) ==
  LET e == Entries[cfg.comp][entry] IN
  /\ Len(args) \in e.lo..e.hi
  /\ e.does = "call" => \A j \in 1..4 : args[j].c = CallCats[j]
  /\ Len(saw) = Len(args)
  /\ \A j \in 1..Len(args) : saw[j].v = args[j].v /\ saw[j].c \in Seen(e, args[j].c)
  /\ made = IF e.does = "make" THEN 1 ELSE 0
  /\ set = IF e.does = "set" THEN 1 ELSE 0
  /\ IF e.does = "same" /\ args[1].c # "r" THEN copies >= 1 ELSE copies = 0
  /\ list = IF e.il THEN <<3, 4>> ELSE <<>>
  /\ arr' = arr + 1

TypeOK == arr \in Nat
=============================================================================
