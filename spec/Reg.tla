-------------------------------- MODULE Reg ---------------------------------
(* The two global registers: the new/delete resource and the default resource. *)
(* Calls of several threads overlap; each call has its effect at an instant   *)
(* between invocation and return. Resources are numbers, 0 is the built-in.   *)
(*                                                                            *)
(* A state s is [nd, df, ini, pend]:                                          *)
(*   nd, df  current values; df = Unset until the default is first touched    *)
(*   ini     value read for the default's first use, None before              *)
(*   pend    thread -> its call [k, a, ph, x]: kind, argument (0: null),      *)
(*           ph 0 invoked, 1 has read what a null argument restores, 2 done   *)
(*           (x is the value read, then the result)                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Builtin == 0
Unset   == -1
None    == -2
Idle == [k |-> "-", a |-> 0, ph |-> 0, x |-> None]
Kinds == {"getnd", "setnd", "getdf", "setdf"}
OnDefault(p) == p.k \in {"getdf", "setdf"}
Start(T) == [nd |-> Builtin, df |-> Unset, ini |-> None, pend |-> [t \in T |-> Idle]]

With(s, t, p) == [s EXCEPT !.pend[t] = p]
Done(p, v) == [p EXCEPT !.ph = 2, !.x = v]

Invoke(s, t, k, a) == IF s.pend[t] = Idle THEN {With(s, t, [k |-> k, a |-> a, ph |-> 0, x |-> None])} ELSE {}
Return(s, t, v)    == IF s.pend[t].ph = 2 /\ s.pend[t].x = v THEN {With(s, t, Idle)} ELSE {}

\* the effects thread t's call can have next
Effects(s, t) ==
  LET p == s.pend[t] IN
  CASE p.k = "getnd" /\ p.ph = 0 -> {With(s, t, Done(p, s.nd))}
    [] p.k = "setnd" /\ p.ph = 0 -> {With([s EXCEPT !.nd = IF p.a = 0 THEN Builtin ELSE p.a], t, Done(p, s.nd))}
    [] OnDefault(p) /\ p.ph < 2 /\ s.df = Unset ->
         \* the default starts as what the new/delete register holds when it is first used
         IF s.ini = None THEN {[s EXCEPT !.ini = s.nd], [s EXCEPT !.ini = Builtin]} ELSE {[s EXCEPT !.df = s.ini]}
    [] p.k = "getdf" /\ p.ph = 0 -> {With(s, t, Done(p, s.df))}
    [] p.k = "setdf" /\ p.ph = 0 /\ p.a # 0 -> {With([s EXCEPT !.df = p.a], t, Done(p, s.df))}
    [] p.k = "setdf" /\ p.ph = 0 /\ p.a = 0 -> {With(s, t, [p EXCEPT !.ph = 1, !.x = s.nd])}
    [] p.k = "setdf" /\ p.ph = 1 -> {With([s EXCEPT !.df = p.x], t, Done(p, s.df))}
    [] OTHER -> {}
Internal(s) == UNION {Effects(s, t) : t \in DOMAIN s.pend}
=============================================================================
