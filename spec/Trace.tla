-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks that a history recorded from the real library is a behaviour of  *)
(* Graphillion.  Each line of the trace is one public call with its        *)
(* arguments and everything it was observed to return; it is matched with  *)
(* the action of that call.  The trace is accepted iff every line matches. *)
(***************************************************************************)
EXTENDS Graphillion, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<uni, heap, its, files, l>>

e == Trace[l]

\* the reply as a TLA+ value; a family is recorded as the list of its members
\* and must not list one twice
Obs == CASE e.k = "fam" -> ToFam(e.v)
         [] e.k = "set" -> Rng(e.v)
         [] OTHER       -> e.v
NoDup == e.k = "fam" => Cardinality(ToFam(e.v)) = Len(e.v)

Match(o) ==
  /\ o.k = e.k
  /\ o.k \in {"none", "self", "stop"} \/ o.v = Obs
  /\ e.hs => (o.s = ToFam(e.s) /\ Cardinality(o.s) = Len(e.s))

Reject(exp) == PrintT(<<"REJECT", l, exp>>) /\ FALSE
Check(ok, exp) == IF ok THEN TRUE ELSE Reject(exp)

TCall ==
  LET exp == Outcomes(uni, e.c, e.op, Families1(e.a), e.x)
      ok  == {o \in exp : Match(o)}
  IN  IF NoDup /\ ok # {}
      THEN \E o \in ok : Effect(e.c, e.op, e.a, e.x, e.h, o)
      ELSE Reject(exp)

\* Every live object holds what it should (nothing else was touched).
TAudit ==
  /\ Check(/\ DOMAIN heap = {e.fams[i][1] : i \in 1..Len(e.fams)}
           /\ \A i \in 1..Len(e.fams) :
                /\ heap[e.fams[i][1]].f = ToFam(e.fams[i][2])
                /\ Cardinality(ToFam(e.fams[i][2])) = Len(e.fams[i][2]), heap)
  /\ UNCHANGED vars

MatchItem(exp) == Check(\E o \in exp : o.k = e.k /\ (o.k = "set" => o.v = Obs), exp)
Out == R(e.k, Obs, {})
Got == [Out EXCEPT !.v = IF e.k = "stop" THEN 0 ELSE @]
TIter == /\ MatchItem(Items(e.x.kind, IterW(heap[e.a].c, e.x), heap[e.a].f))
         /\ IterOpen(e.a, e.i, e.x, Got)
TNext == /\ MatchItem(Items(its[e.i].kind, its[e.i].w, its[e.i].todo))
         /\ IterNext(e.i, Got)

TDraws == /\ Check(FairDraws(heap[e.a].f, e.len, e.n, e.v), heap[e.a])
          /\ UNCHANGED vars
TDistinct == /\ Check(DistinctDraws(uni, Rng(e.inc), Rng(e.exc), e.most, e.n, e.v, e.end), uni.sn)
             /\ UNCHANGED vars
TBigDraws == /\ Check(FairBigDraws(uni, Rng(e.inc), Rng(e.exc), Rng(e.hit), e.n, e.first, e.blocks, e.v), uni.sn)
             /\ UNCHANGED vars

\* set_universe, and what universe() then reports
Weighted(w, wx, i) == <<i, wx[i], IF wx[i] THEN w[i] ELSE 0>>
UniObs(u, c, obs) ==
  CASE c = "set"   -> obs = [i \in 1..u.sn |-> i]
    [] c = "graph" -> /\ Len(obs) = Len(u.g.E)
                      /\ Rng(obs) = {Weighted(u.w, u.wx, i) : i \in Edges(u.g)}
    [] c = "vset"  -> /\ Len(obs) = u.vn
                      /\ Rng(obs) = {<<i, u.vw[i]>> : i \in 1..u.vn}
    [] c = "ev"    -> /\ Len(obs) = Size(u, "ev")
                      /\ Rng(obs) = Elems(u, "ev")
    [] c = "di"    -> /\ Len(obs) = Len(u.d.E)
                      /\ Rng(obs) = {Weighted(u.dw, u.dx, i) : i \in Edges(u.d)}
InOrder(obs) == \A i \in 1..Len(obs) : obs[i][1] = i
TUniverse == /\ Check(e.ok # e.x.bad, e.x)
             /\ SetUniverse(e.c, e.x, e.ok)
TUniQuery ==
  /\ Check(UniObs(uni, e.c, e.obs) /\ (e.ordered => InOrder(e.obs)), uni)
  /\ UNCHANGED vars

TraceInit == Init /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ CASE e.t = "call"  -> TCall
       [] e.t = "audit" -> TAudit
       [] e.t = "iter"  -> TIter
       [] e.t = "next"  -> TNext
       [] e.t = "draws" -> TDraws
       [] e.t = "bigdraws" -> TBigDraws
       [] e.t = "distinct" -> TDistinct
       [] e.t = "drop"  -> Drop(Rng(e.a))
       [] e.t = "dropiter" -> DropIter(e.i)
       [] e.t = "text" -> /\ Check(TextOK(heap[e.h].f, e.full, e.v), heap[e.h])
                          /\ UNCHANGED vars
       [] e.t = "internal" -> Internal
       [] e.t = "universe" -> TUniverse
       [] e.t = "uniquery" -> TUniQuery
       [] e.t = "dump"  -> Dump(e.h, e.name)
       [] e.t = "load"  -> /\ Load(e.name, e.h)
                           /\ Check(/\ Head(files[e.name]) = [c |-> e.c, f |-> ToFam(e.v)]
                                    /\ Cardinality(ToFam(e.v)) = Len(e.v), files[e.name])
       [] e.t = "restart" -> Restart
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
