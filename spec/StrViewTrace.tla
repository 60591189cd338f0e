---------------------------- MODULE StrViewTrace ----------------------------
(* Validates recorded uses of real string views against StrView. *)
EXTENDS StrView, TLC, Json, IOUtils
VARIABLES h, i
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ h \in 1..Len(Traces)
         /\ i = 1
         /\ cfg = Traces[h].c
         /\ arr = Start(3)

\* kept: the sequences viewed are as they were
Act(e) ==
  /\ e.kept
  /\ CASE e.op = "fresh"  -> Fresh(e.s, e.t)
       [] e.op = "clear"  -> Clear(e.s)
       [] e.op = "assign" -> Copy(e.s, e.d)
       [] e.op = "swap"   -> Swap(e.s, e.d)
       [] e.op = "prefix" -> Prefix(e.s, e.n)
       [] e.op = "suffix" -> Suffix(e.s, e.n)
       [] e.op = "sub"    -> SubView(e.s, e.d, e.p, e.n, e.r)
       [] e.op = "copy"   -> CopyOut(e.s, e.p, e.n, e.r, e.ret, e.dest, 5)
       [] e.op = "at"     -> At(e.s, e.p, e.r, e.ret)
       [] e.op = "findc"  -> FindLetter(e.s, e.ch, e.p, e.ret)
       [] e.op = "finds"  -> FindView(e.s, e.d, e.p, e.ret)
       [] e.op = "cmp"    -> Comparison(e.s, e.d, e.ret, e.rel)
       [] e.op = "walk"   -> Walk(e.s, e.seqs, e.sizes, e.empty)
       [] e.op = "out"    -> Out(e.s, e.w, e.fill, e.adj, e.ret, e.after)
       [] OTHER -> FALSE

TNext ==
  IF i > Len(Traces[h].e)
  THEN UNCHANGED <<cfg, arr, h, i>>
  ELSE LET e == Traces[h].e[i] IN
       /\ Act(e)
       /\ arr'.v = e.post
       /\ i' = i + 1
       /\ UNCHANGED <<cfg, h>>
=============================================================================
