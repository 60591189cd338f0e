-------------------------------- MODULE Caps --------------------------------
(* What a wrapper of given element types can do, and which of the elements'   *)
(* own functions it uses for it.                                              *)
(*                                                                            *)
(* cfg: k   "opt" (one element type), "var" or "uvar"                         *)
(*      ts  the element types, each a record of letters                       *)
(*            cc, mc, ca, ma  copy/move construction/assignment: "d" deleted, *)
(*                            "a" absent (moves only: copies are used), "u"   *)
(*                            its own that may throw, "n" its own that cannot *)
(*                            throw, "t" trivial                              *)
(*            dt  destruction: "u" its own, "t" trivial                       *)
(*            df  default construction: "d", "u", "n"                         *)
(*            sw  swapping: "s" by moving, its own "u"/"n", "d" deleted       *)
(*      c, m  (uvar) declared to be copyable, movable                         *)
(* arr: two wrappers, each [i, v]: the element type held (0: none), its value *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, arr

Slots == DOMAIN arr
None == [i |-> 0, v |-> 0]
Gone == -1

\* -- element types -----------------------------------------------------------
Eff(e, q) == CASE q = "mc" /\ e.mc = "a" -> e.cc [] q = "ma" /\ e.ma = "a" -> e.ca [] OTHER -> e[q]
\* the function that runs
Own(e, q) == CASE q = "mc" /\ e.mc = "a" -> "cc" [] q = "ma" /\ e.ma = "a" -> "ca" [] OTHER -> q
Can(e, q)  == Eff(e, q) # "d"
Triv(e, q) == Eff(e, q) = "t" /\ (q \in {"cc", "mc"} => e.dt = "t")
Calm(e, q) == Eff(e, q) \in {"n", "t"}
CanSwap(e)  == IF e.sw = "s" THEN Can(e, "mc") /\ Can(e, "ma") ELSE e.sw # "d"
CalmSwap(e) == IF e.sw = "s" THEN Calm(e, "mc") /\ Calm(e, "ma") ELSE e.sw = "n"

\* -- wrappers ----------------------------------------------------------------
Types == 1..Len(cfg.ts)
All(P(_)) == \A t \in Types : P(cfg.ts[t])
Is(F(_, _), q) == \A t \in Types : F(cfg.ts[t], q)
\* the constructions an assignment may have to use
Parts(q) == CASE q = "ca" -> {"cc", "ca"} [] q = "ma" -> {"mc", "ma"} [] OTHER -> {q}
Full(F(_, _), q) == \A p \in Parts(q) : Is(F, p)
Copy(q) == IF q \in {"mc", "cc"} THEN "cc" ELSE "ca"

\* can the wrapper do q: "yes", "no", or "any" where it cannot move but may copy instead
Able(q) ==
  IF cfg.k = "uvar"
  THEN IF q \in {"cc", "ca"} THEN (IF cfg.c THEN "yes" ELSE "no")
       ELSE IF cfg.m THEN "yes" ELSE IF cfg.c THEN "any" ELSE "no"
  ELSE IF Full(Can, q) THEN "yes" ELSE IF Full(Can, Copy(q)) THEN "any" ELSE "no"

Specials == {"cc", "mc", "ca", "ma"}
Asks == IF cfg.k = "uvar" THEN {"can"} \X Specials
        ELSE ({"can", "triv", "calm"} \X Specials) \cup ({"can", "calm"} \X {"df", "sw", "swap"}) \cup ({"triv"} \X {"dt"})

Equal(a, b) == (a = b) = TRUE
Answer(w, q, a) ==
  CASE q \in Specials /\ w = "can"  -> (Able(q) = "yes" => a) /\ (Able(q) = "no" => ~a)
    [] q \in Specials /\ w = "triv" -> IF Able(q) = "yes" THEN a = (Full(Triv, q) /\ Is(Triv, "dt")) ELSE Able(q) = "no" => ~a
    [] q \in {"mc", "ma"} /\ w = "calm" -> IF Able(q) = "yes" THEN a = Full(Calm, q) ELSE Able(q) = "no" => ~a
    \* a copy that promises not to throw must not have to
    [] q \in {"cc", "ca"} /\ w = "calm" -> a => Full(Can, q) /\ Full(Calm, q)
    [] q = "dt" -> a = Is(Triv, "dt")
    [] q = "df" /\ w = "can"  -> a = (cfg.k = "opt" \/ Can(cfg.ts[1], "df"))
    [] q = "df" /\ w = "calm" -> a = (cfg.k = "opt" \/ Calm(cfg.ts[1], "df"))
    \* sw: swapped as anything else is; swap: by its own function
    [] q = "sw" -> /\ w = "can" => /\ (Able("mc") = "yes" /\ Able("ma") = "yes" /\ All(CanSwap) => a)
                                   /\ (Able("mc") = "no" \/ Able("ma") = "no" => ~a)
                   /\ w = "calm" => (a => Is(Calm, "mc") /\ (All(CalmSwap) \/ Is(Calm, "ma")))
    [] q = "swap" /\ w = "can"  -> a
    [] q = "swap" /\ w = "calm" -> Is(Can, "mc") /\ All(CanSwap) => a = (Is(Calm, "mc") /\ All(CalmSwap))
    [] OTHER -> FALSE
Ask(w, q, a) == <<w, q>> \in Asks /\ Answer(w, q, a) /\ UNCHANGED arr

\* -- what the elements see: log, the calls of their own functions, as <<function, type>> ------------------------
Count(log, f, t) == Cardinality({j \in 1..Len(log) : log[j] = <<f, t>>})
\* the calls of trivial functions cannot be seen
Seen(f, t) == Eff(cfg.ts[t], f) \in {"u", "n"}
Call(f, t) == IF Seen(f, t) THEN <<<<Own(cfg.ts[t], f), t>>>> ELSE <<>>
SameCalls(log, calls) == /\ Len(log) = Len(calls)
                         /\ \A j \in 1..Len(calls) : Count(log, calls[j][1], calls[j][2]) = Count(calls, calls[j][1], calls[j][2])
\* the value an object is left with when f has moved from it
Left(f, w) == IF Seen(f, w.i) /\ Own(cfg.ts[w.i], f) = f /\ f \in {"mc", "ma"} THEN [w EXCEPT !.v = Gone] ELSE w
End(w) == IF w.i = 0 THEN <<>> ELSE Call("dt", w.i)

Set(s, w) == arr' = [arr EXCEPT ![s] = w]
Put(s, i, v, log) == i \in Types /\ Set(s, [i |-> i, v |-> v]) /\ SameCalls(log, End(arr[s]))
Clear(s, log) == Set(s, None) /\ SameCalls(log, End(arr[s]))

\* another wrapper made from s by f ("cc" or "mc") and destroyed again
Made(s, f, w, log, end) ==
  /\ w = arr[s]
  /\ IF arr[s].i = 0 THEN log = <<>> /\ end = <<>> /\ UNCHANGED arr
     ELSE /\ SameCalls(log, Call(f, arr[s].i)) /\ SameCalls(end, End(arr[s]))
          /\ Set(s, Left(f, arr[s]))

Ctor(f) == IF f = "ca" THEN "cc" ELSE "mc"
Assigned(d, s, f, log) ==
  LET x == arr[d] y == arr[s] IN
  IF d = s THEN \* on itself: keeps its value, or at worst what assigning the value to itself leaves
       /\ arr' = arr
       /\ Len(log) <= 1 /\ (log # <<>> => y.i # 0 /\ log = Call(f, y.i))
  ELSE IF y.i = 0 THEN Set(d, None) /\ SameCalls(log, End(x))
  ELSE IF x.i = y.i
  THEN /\ arr' = [arr EXCEPT ![d] = y, ![s] = Left(f, y)]
       /\ SameCalls(log, Call(f, y.i))
  ELSE /\ arr' = [arr EXCEPT ![d] = y, ![s] = Left(Ctor(f), y)]
       /\ \/ SameCalls(log, End(x) \o Call(Ctor(f), y.i))
          \* by way of a copy on the side that is then moved
          \/ f = "ca" /\ SameCalls(log, End(x) \o Call("cc", y.i) \o Call("mc", y.i) \o End(y))

\* by the wrappers' own function
Swapped(a, b) == arr' = [arr EXCEPT ![a] = arr[b], ![b] = arr[a]]

\* -- what must hold ----------------------------------------------------------
TypeOK == \A s \in Slots : arr[s].i \in {0} \cup Types
=============================================================================
