------------------------------ MODULE Diagram ------------------------------
(***************************************************************************)
(* Families that are too large to list.                                    *)
(*                                                                         *)
(* Graphillion and Trace describe a family by listing its sets.  This      *)
(* module checks the same operations on families of any size (2^100 sets   *)
(* and more): the driver records each object as the decision diagram that  *)
(* dumps() writes, and every operation is specified by an automaton that   *)
(* reads a set element by element, in universe order, and accepts it iff   *)
(* the set must be in the result.  TLC explores the product of the         *)
(* recorded result with that automaton: at the end of every set, the       *)
(* result contains the set iff the automaton accepts it.  The product is   *)
(* finite and is explored completely, so one passed event is a proof that  *)
(* the recorded result is exact, set by set.                               *)
(*                                                                         *)
(* Diagram node 1 is the empty family, node 2 the family {{}}; node k has  *)
(* the variable v[k] (its position in the universe, from the top), lo and  *)
(* hi.  A position that a path skips is an element that is not in the set. *)
(***************************************************************************)
EXTENDS Frontier, SequencesExt, Json, IOUtils

Diags == ndJsonDeserialize(IOEnv.DIAGS)     \* all diagrams that were seen
Trace == ndJsonDeserialize(IOEnv.TRACE)     \* one public call per line

VARIABLES l,      \* next line of the trace
          heap,   \* handle -> number of the diagram the object holds
          ds,     \* <<>>, or the diagrams of the call under exploration (result last)
          lev,    \* next element to read
          r,      \* node of the result reached so far
          s,      \* state of the automaton
          bad     \* reason why a line is not a step of the specification
vars == <<l, heap, ds, lev, r, s, bad>>

e == Trace[l]
\* what the automata of constructors need to know, once per line
Pre == [i \in 1..Len(Trace) |->
          CASE Trace[i].t = "call" /\ Trace[i].op \in {"construct", "to_ev"} -> Prepare(Trace[i].x)
            [] OTHER -> <<>>]
PreT == TLCEval(Pre)
D(i) == Diags[ds[i]]
Step1(A, k, p, b) ==                        \* from node k, element p in (b = 1) or not
  IF A.v[k] # p THEN (IF b = 0 THEN k ELSE 1)
  ELSE IF b = 0 THEN A.lo[k] ELSE A.hi[k]

Rng(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Has(_, _, _, _, _)
Has(A, X, n, p, k) ==                       \* is X in the family of node k?
  IF p > n THEN k = 2
  ELSE IF k = 1 THEN FALSE
  ELSE Has(A, X, n, p + 1, Step1(A, k, p, IF p \in X THEN 1 ELSE 0))
In(A, X) == X \subseteq 1..A.n /\ Has(A, X, A.n, 1, A.root)

\* what a dump is: reduced, zero-suppressed, ordered, children first
WellFormed(A) ==
  /\ \A k \in 3..Len(A.v) :
       /\ A.v[k] \in 1..A.n
       /\ A.hi[k] # 1
       /\ A.lo[k] < k /\ A.hi[k] < k
       /\ A.v[A.lo[k]] > A.v[k] /\ A.v[A.hi[k]] > A.v[k]
  /\ Cardinality({<<A.v[k], A.lo[k], A.hi[k]>> : k \in 3..Len(A.v)}) = Len(A.v) - 2
  /\ IF Len(A.v) = 2 THEN A.root \in {1, 2} ELSE A.root = Len(A.v)
\* diagrams are canonical: equal families have equal diagrams
Same(A, B) == A.root = B.root /\ A.v = B.v /\ A.lo = B.lo /\ A.hi = B.hi
SameFam(A, B) ==
  \/ Same(A, B)
  \/ LET f == FoldLeft(LAMBDA acc, k : acc @@ (<<A.v[k], A.lo[k], A.hi[k]>> :> k), <<>>,
                       [i \in 1..(Len(A.v) - 2) |-> i + 2])
         g == FoldLeft(LAMBDA acc, k :     \* node of B -> node of A, or 0
                         Append(acc, LET q == <<B.v[k], acc[B.lo[k]], acc[B.hi[k]]>>
                                     IN  IF q \in DOMAIN f THEN f[q] ELSE 0),
                       <<1, 2>>, [i \in 1..(Len(B.v) - 2) |-> i + 2])
     IN  g[B.root] = A.root

----------------------------------------------------------------------------
(* Natural numbers of any size: digits in base 10^4, least first.          *)
RECURSIVE BAdd(_, _, _)
BAdd(x, y, c) ==
  IF x = <<>> /\ y = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == (IF x = <<>> THEN 0 ELSE Head(x)) + (IF y = <<>> THEN 0 ELSE Head(y)) + c
       IN  <<t % 10000>> \o BAdd(IF x = <<>> THEN x ELSE Tail(x), IF y = <<>> THEN y ELSE Tail(y),
                                 t \div 10000)
Big(x, y) == TLCEval(BAdd(x, y, 0))
NodesUp(A) == [i \in 1..(Len(A.v) - 2) |-> i + 2]
\* number of sets
Counts(A) == FoldLeft(LAMBDA acc, k : Append(acc, Big(acc[A.lo[k]], acc[A.hi[k]])),
                      << <<>>, <<1>> >>, NodesUp(A))
Count(A) == Counts(A)[A.root]
\* extreme weight of a nonempty family (sgn 1: largest, -1: smallest)
Extreme(A, w, sgn) ==
  FoldLeft(LAMBDA acc, k :
             LET h == w[A.v[k]] + acc[A.hi[k]]
             IN  Append(acc, IF A.lo[k] = 1 \/ sgn * h > sgn * acc[A.lo[k]] THEN h ELSE acc[A.lo[k]]),
           <<0, 0>>, NodesUp(A))[A.root]
\* number of ways in which a random set is a member, when element p is out in
\* q0[p] and in in q1[p] of q0[p] + q1[p] cases
RECURSIVE Times(_, _)
Times(x, m) == IF m = 0 THEN <<>> ELSE IF m = 1 THEN x ELSE Big(x, Times(x, m - 1))
RECURSIVE Skip(_, _, _, _)
Skip(x, q0, a, b) == IF a > b \/ x = <<>> THEN x ELSE Skip(TLCEval(Times(x, q0[a])), q0, a + 1, b)
Ways(A, q0, q1) ==
  LET up(acc, c, p, m) == Skip(TLCEval(Times(acc[c], m)), q0, p + 1, (IF c = 2 THEN A.n ELSE A.v[c] - 1))
      w == FoldLeft(LAMBDA acc, k : Append(acc, Big(up(acc, A.lo[k], A.v[k], q0[A.v[k]]),
                                                     up(acc, A.hi[k], A.v[k], q1[A.v[k]]))),
                    << <<>>, <<1>> >>, NodesUp(A))
  IN  Skip(w[A.root], q0, 1, IF A.root = 2 THEN A.n ELSE IF A.root = 1 THEN 0 ELSE A.v[A.root] - 1)

----------------------------------------------------------------------------
(* The automata.  Start, Step and Accept of the call e on diagrams ds.     *)
P0(S) == {q \in S : q[1] # 1 /\ q[2] # 1}
BoolOps == {"union", "intersection", "difference", "symmetric_difference",
            "update", "intersection_update", "difference_update", "symmetric_difference_update"}
NA == Len(ds) - 1                                    \* number of operands
Roots == [i \in 1..NA |-> D(i).root]
Start ==
  CASE e.op \in BoolOps -> Roots
    [] e.op \in {"copy", "reload", "flip", "complement", "flipall", "invert", "erase", "graft"} -> {D(1).root}
    [] e.op \in {"join", "meet"} -> P0({<<D(1).root, D(2).root>>})
    [] e.op \in {"quotient", "quotient_update"} ->
         IF D(1).root = 1 THEN {<<1, 2>>} ELSE {<<D(1).root, D(2).root>>}
    [] e.op \in {"remainder", "remainder_update"} -> <<D(1).root, {<<D(3).root, D(2).root>>}>>
    [] e.op \in {"subsets", "supersets", "nonsubsets", "nonsupersets"} -> <<D(1).root, {D(2).root}>>
    [] e.op \in {"minimal", "maximal"} -> <<D(1).root, {<<D(1).root, 0>>}>>
    [] e.op = "hitting" -> {D(1).root} \ {1}
    [] e.op \in {"smaller", "larger", "size"} -> <<D(1).root, 0>>
    [] e.op \in {"cost_le", "cost_ge", "cost_eq"} -> <<D(1).root, <<0, 0>>>>
    [] e.op \in {"including", "excluding", "included", "add", "remove", "discard"} -> <<D(1).root, 1>>
    [] e.op \in {"remove_some", "add_some"} -> {<<D(1).root, 0>>}
    [] e.op = "remove_add_some" -> {<<D(1).root, 0, 0>>}
    [] e.op = "con" -> <<1>>
    [] e.op = "construct" -> <<GStart(e.x, PreT[l]), IF NA = 0 THEN 2 ELSE D(1).root>>
    [] e.op = "to_ev" -> <<D(1).root, {}, {}, {}>>
    [] e.op = "new" -> 1..Len(e.x.e)

A1(k, b) == Step1(D(1), k, lev, b)
B1(k, b) == Step1(D(2), k, lev, b)
Q1(k, b) == Step1(D(3), k, lev, b)
Both(k) == {A1(k, 0), A1(k, 1)}
Given == Rng(e.x.e)                                  \* a set argument
Dead2(q) == IF q[1] = 1 THEN <<1, {}>> ELSE q
Norm(hi, lo) == <<hi + (lo \div 65536), lo % 65536>>

\* an edge-vertex set: <<node of the edge family, touched vertices to come,
\* vertices that still need an edge, vertices that are out>>
EvStep(b) ==
  LET m == e.x.map[lev]
      last == PreT[l].last
  IN  IF m[1] = 2
      THEN LET v == m[2]
           IN  IF v \in s[2] THEN (IF b = 1 THEN <<s[1], s[2] \ {v}, s[3], s[4]>> ELSE <<1, {}, {}, {}>>)
               ELSE IF last[v] < lev THEN (IF b = 1 THEN <<1, {}, {}, {}>> ELSE s)
               ELSE IF b = 1 THEN <<s[1], s[2], s[3] \cup {v}, s[4]>> ELSE <<s[1], s[2], s[3], s[4] \cup {v}>>
      ELSE LET a == Step1(D(1), s[1], m[2], b)
               ends == FR(e.x.g.E[lev])
               need == s[3] \ (IF b = 1 THEN ends ELSE {})
               tou == s[2] \cup (IF b = 1 THEN {v \in ends : e.x.pos[v] > lev} ELSE {})
           IN  IF \/ a = 1
                  \/ b = 1 /\ ends \cap s[4] # {}
                  \/ \E v \in need : last[v] <= lev
               THEN <<1, {}, {}, {}>>
               ELSE <<a, tou, need, {v \in s[4] : last[v] > lev}>>

Step(b) ==
  CASE e.op \in BoolOps -> [i \in 1..NA |-> Step1(D(i), s[i], lev, b)]
    [] e.op \in {"copy", "reload", "invert"} -> {A1(k, b) : k \in s}
    [] e.op = "flip" -> {A1(k, IF lev = e.x.e THEN 1 - b ELSE b) : k \in s}
    [] e.op \in {"complement", "flipall"} -> {A1(k, 1 - b) : k \in s}
    [] e.op = "graft" ->                             \* the element is added to every set
         IF lev # e.x.e THEN {A1(k, b) : k \in s} \ {1}
         ELSE IF b = 0 THEN {} ELSE UNION {Both(k) : k \in s} \ {1}
    [] e.op = "erase" ->
         IF lev # e.x.e THEN {A1(k, b) : k \in s} \ {1}
         ELSE IF b = 1 THEN {} ELSE UNION {Both(k) : k \in s} \ {1}
    [] e.op = "join" ->
         P0(IF b = 0 THEN {<<A1(q[1], 0), B1(q[2], 0)>> : q \in s}
            ELSE UNION {{<<A1(q[1], 1), B1(q[2], 0)>>, <<A1(q[1], 0), B1(q[2], 1)>>,
                         <<A1(q[1], 1), B1(q[2], 1)>>} : q \in s})
    [] e.op = "meet" ->
         P0(IF b = 1 THEN {<<A1(q[1], 1), B1(q[2], 1)>> : q \in s}
            ELSE UNION {{<<A1(q[1], 1), B1(q[2], 0)>>, <<A1(q[1], 0), B1(q[2], 1)>>,
                         <<A1(q[1], 0), B1(q[2], 0)>>} : q \in s})
    [] e.op \in {"quotient", "quotient_update"} ->   \* <<f, g>>: what is left of a set of g must be in f
         LET t == {q \in IF b = 1 THEN {<<A1(q[1], 1), B1(q[2], 0)>> : q \in s}
                         ELSE UNION {{<<A1(q[1], 0), B1(q[2], 0)>>, <<A1(q[1], 1), B1(q[2], 1)>>} : q \in s}
                   : q[2] # 1}
         IN  IF (b = 1 /\ \E q \in s : B1(q[2], 1) # 1) \/ \E q \in t : q[1] = 1
             THEN {<<1, 2>>} ELSE t
    [] e.op \in {"remainder", "remainder_update"} -> \* not a union of a quotient and a divisor
         Dead2(<<A1(s[1], b),
           P0(IF b = 0 THEN {<<Q1(q[1], 0), B1(q[2], 0)>> : q \in s[2]}
              ELSE UNION {{<<Q1(q[1], 1), B1(q[2], 0)>>, <<Q1(q[1], 0), B1(q[2], 1)>>,
                           <<Q1(q[1], 1), B1(q[2], 1)>>} : q \in s[2]})>>)
    [] e.op \in {"subsets", "nonsubsets"} ->
         Dead2(<<A1(s[1], b), (IF b = 1 THEN {B1(k, 1) : k \in s[2]}
                               ELSE UNION {{B1(k, 0), B1(k, 1)} : k \in s[2]}) \ {1}>>)
    [] e.op \in {"supersets", "nonsupersets"} ->
         Dead2(<<A1(s[1], b), (IF b = 0 THEN {B1(k, 0) : k \in s[2]}
                               ELSE UNION {{B1(k, 0), B1(k, 1)} : k \in s[2]}) \ {1}>>)
    [] e.op = "minimal" ->                           \* other members inside this set; 1: properly
         Dead2(<<A1(s[1], b),
           {q \in IF b = 0 THEN {<<A1(q[1], 0), q[2]>> : q \in s[2]}
                  ELSE UNION {{<<A1(q[1], 0), 1>>, <<A1(q[1], 1), q[2]>>} : q \in s[2]} : q[1] # 1}>>)
    [] e.op = "maximal" ->
         Dead2(<<A1(s[1], b),
           {q \in IF b = 1 THEN {<<A1(q[1], 1), q[2]>> : q \in s[2]}
                  ELSE UNION {{<<A1(q[1], 1), 1>>, <<A1(q[1], 0), q[2]>>} : q \in s[2]} : q[1] # 1}>>)
    [] e.op = "hitting" ->                           \* the sets not hit so far
         LET t == (IF b = 1 THEN {A1(k, 0) : k \in s} ELSE UNION {Both(k) : k \in s}) \ {1}
         IN  IF 2 \in t THEN {2} ELSE t
    [] e.op \in {"smaller", "larger", "size"} ->
         LET a == A1(s[1], b) IN IF a = 1 THEN <<1, 0>> ELSE <<a, s[2] + b>>
    [] e.op \in {"cost_le", "cost_ge", "cost_eq"} ->
         LET a == A1(s[1], b)
             w == e.x.w[lev]
         IN  IF a = 1 THEN <<1, <<0, 0>>>>
             ELSE <<a, IF b = 0 THEN s[2] ELSE Norm(s[2][1] + w[1], s[2][2] + w[2])>>
    [] e.op = "including" -> <<A1(s[1], b), IF lev \in Given /\ b = 0 THEN 0 ELSE s[2]>>
    [] e.op = "excluding" -> <<A1(s[1], b), IF lev \in Given /\ b = 0 THEN 0 ELSE s[2]>>
    [] e.op = "included"  -> <<A1(s[1], b), IF lev \notin Given /\ b = 1 THEN 0 ELSE s[2]>>
    [] e.op \in {"add", "remove", "discard"} ->      \* 1: the set is e.x.e so far
         <<A1(s[1], b), IF (lev \in Given) = (b = 1) THEN s[2] ELSE 0>>
    [] e.op = "remove_some" ->
         {q \in IF b = 1 THEN {<<A1(q[1], 1), q[2]>> : q \in s}
                ELSE UNION {{<<A1(q[1], 0), q[2]>>} \cup (IF q[2] = 0 THEN {<<A1(q[1], 1), 1>>} ELSE {})
                            : q \in s} : q[1] # 1}
    [] e.op = "add_some" ->
         {q \in IF b = 0 THEN {<<A1(q[1], 0), q[2]>> : q \in s}
                ELSE UNION {{<<A1(q[1], 1), q[2]>>} \cup (IF q[2] = 0 THEN {<<A1(q[1], 0), 1>>} ELSE {})
                            : q \in s} : q[1] # 1}
    [] e.op = "remove_add_some" ->
         {q \in IF b = 1
                THEN UNION {{<<A1(q[1], 1), q[2], q[3]>>}
                            \cup (IF q[3] = 0 THEN {<<A1(q[1], 0), q[2], 1>>} ELSE {}) : q \in s}
                ELSE UNION {{<<A1(q[1], 0), q[2], q[3]>>}
                            \cup (IF q[2] = 0 THEN {<<A1(q[1], 1), 1, q[3]>>} ELSE {}) : q \in s}
          : q[1] # 1}
    [] e.op = "con" ->
         <<IF (lev \in Rng(e.x.inc) /\ b = 0) \/ (lev \in Rng(e.x.exc) /\ b = 1) THEN 0 ELSE s[1]>>
    [] e.op = "construct" ->                         \* in the operand, if there is one
         LET a == IF NA = 0 THEN 2 ELSE A1(s[2], b)
             g == IF a = 1 THEN <<>> ELSE GStep(e.x, PreT[l], s[1], lev, b)
         IN  IF g = <<>> THEN <<<<>>, 1>> ELSE <<g, a>>
    [] e.op = "to_ev" -> EvStep(b)
    [] e.op = "new" -> {i \in s : (lev \in Rng(e.x.e[i])) = (b = 1)}

Accept ==
  CASE e.op \in {"union", "update"} -> \E i \in 1..NA : s[i] = 2
    [] e.op \in {"intersection", "intersection_update"} -> \A i \in 1..NA : s[i] = 2
    [] e.op \in {"difference", "difference_update"} -> s[1] = 2 /\ \A i \in 2..NA : s[i] # 2
    [] e.op \in {"symmetric_difference", "symmetric_difference_update"} ->
         Cardinality({i \in 1..NA : s[i] = 2}) % 2 = 1
    [] e.op \in {"copy", "reload", "flip", "complement", "flipall", "graft", "erase"} -> 2 \in s
    [] e.op = "invert" -> 2 \notin s
    [] e.op \in {"join", "meet"} -> <<2, 2>> \in s
    [] e.op \in {"quotient", "quotient_update"} -> \A q \in s : q[1] = 2
    [] e.op \in {"remainder", "remainder_update"} -> s[1] = 2 /\ <<2, 2>> \notin s[2]
    [] e.op \in {"subsets", "supersets"} -> s[1] = 2 /\ 2 \in s[2]
    [] e.op \in {"nonsubsets", "nonsupersets"} -> s[1] = 2 /\ 2 \notin s[2]
    [] e.op \in {"minimal", "maximal"} -> s[1] = 2 /\ <<2, 1>> \notin s[2]
    [] e.op = "hitting" -> s = {}
    [] e.op = "smaller" -> s[1] = 2 /\ s[2] < e.x.k
    [] e.op = "larger"  -> s[1] = 2 /\ s[2] > e.x.k
    [] e.op = "size"    -> s[1] = 2 /\ s[2] = e.x.k
    [] e.op = "cost_le" -> s[1] = 2 /\ (s[2][1] < e.x.b[1] \/ (s[2][1] = e.x.b[1] /\ s[2][2] <= e.x.b[2]))
    [] e.op = "cost_ge" -> s[1] = 2 /\ (s[2][1] > e.x.b[1] \/ (s[2][1] = e.x.b[1] /\ s[2][2] >= e.x.b[2]))
    [] e.op = "cost_eq" -> s[1] = 2 /\ s[2] = e.x.b
    [] e.op \in {"including", "included"} -> s[1] = 2 /\ s[2] = 1
    [] e.op = "excluding" -> s[1] = 2 /\ s[2] = 0
    [] e.op = "add" -> s[1] = 2 \/ s[2] = 1
    [] e.op \in {"remove", "discard"} -> s[1] = 2 /\ s[2] = 0
    [] e.op \in {"remove_some", "add_some"} -> <<2, 1>> \in s
    [] e.op = "remove_add_some" -> <<2, 1, 1>> \in s
    [] e.op = "con" -> s[1] = 1
    [] e.op = "construct" -> s[2] = 2 /\ GAccept(e.x, PreT[l], s[1])
    [] e.op = "to_ev" -> s[1] = 2 /\ s[2] = {} /\ s[3] = {}
    [] e.op = "new" -> s # {}

----------------------------------------------------------------------------
(* Replies that are not families: k is the kind of reply, v the reply.     *)
ReplyOk(A) ==                               \* A: sequence of operand diagrams
  LET F == A[1]
      G == A[2]
      x == e.x
  IN
  CASE e.op = "len" -> e.v = Count(F)
    [] e.op = "bool" -> e.v = (F.root # 1)
    [] e.op = "contains" -> e.v = In(F, Rng(x.e))
    [] e.op = "eq" -> e.v = SameFam(F, G)
    [] e.op = "ne" -> e.v = ~ SameFam(F, G)
    \* a refused comparison comes with a set that refutes it
    [] e.op = "lewitness" -> In(F, Rng(x.e)) /\ ~ In(G, Rng(x.e))
    [] e.op = "disjwitness" -> In(F, Rng(x.e)) /\ In(G, Rng(x.e))
    [] e.op \in {"choice", "member"} -> In(F, Rng(e.v))
    [] e.op \in {"iter", "rand"} ->         \* the first members of an iteration
         /\ \A i \in 1..Len(e.v) : In(F, Rng(e.v[i]))
         /\ Cardinality({Rng(e.v[i]) : i \in 1..Len(e.v)}) = Len(e.v)
         /\ e.stop => Count(F) = (IF Len(e.v) = 0 THEN <<>> ELSE <<Len(e.v)>>)
         /\ ~ e.stop => Len(e.v) = x.k
    [] e.op \in {"min_iter", "max_iter"} ->
         LET sgn == IF e.op = "max_iter" THEN 1 ELSE -1
             W(q) == FoldLeft(LAMBDA t, i : t + x.w[i], 0, q)
             ws == [i \in 1..Len(e.v) |-> W(e.v[i])]
         IN  /\ \A i \in 1..Len(e.v) : In(F, Rng(e.v[i])) /\ Cardinality(Rng(e.v[i])) = Len(e.v[i])
             /\ Cardinality({Rng(e.v[i]) : i \in 1..Len(e.v)}) = Len(e.v)
             /\ e.stop => Count(F) = (IF Len(e.v) = 0 THEN <<>> ELSE <<Len(e.v)>>)
             /\ ~ e.stop => Len(e.v) = x.k
             /\ \A i \in 1..(Len(ws) - 1) : sgn * ws[i] >= sgn * ws[i + 1]
             /\ Len(ws) > 0 => ws[1] = Extreme(F, x.w, sgn)
    [] e.op = "prob" -> e.v = Ways(F, x.q0, x.q1)

\* comparisons that hold: every member of F is (not) a member of G; explored
\* like a result, against the empty family
Relations == {"le", "isdisjoint"}
----------------------------------------------------------------------------
Init == l = 1 /\ heap = <<>> /\ ds = <<>> /\ lev = 0 /\ r = 0 /\ s = <<>> /\ bad = ""
Live == ds = <<>> /\ bad = "" /\ l <= Len(Trace)

\* what the objects hold after line l
After ==
  CASE e.t = "call" -> LET h1 == IF e.m # 0 THEN [heap EXCEPT ![e.a[1]] = e.m] ELSE heap
                       IN  IF e.h # 0 THEN (e.h :> e.d) @@ h1 ELSE h1
    [] e.t = "src"  -> (e.h :> e.d) @@ heap
    [] e.t = "drop" -> [h \in DOMAIN heap \ Rng(e.a) |-> heap[h]]
    [] OTHER -> heap
LineBad ==
  CASE e.t = "call" ->
         IF ~ (Rng(e.a) \subseteq DOMAIN heap) THEN "handle"
         ELSE IF e.d # 0 /\ ~ WellFormed(Diags[e.d]) THEN "not a reduced ordered diagram"
         ELSE IF e.k = "val" /\ ~ ReplyOk([i \in 1..Len(e.a) |-> Diags[heap[e.a[i]]]]) THEN "reply"
         ELSE IF e.k = "exc" THEN "exception" ELSE ""
    [] e.t = "src" -> IF WellFormed(Diags[e.d]) THEN "" ELSE "not a reduced ordered diagram"
    [] e.t = "audit" ->
         IF \A i \in 1..Len(e.fams) : SameFam(Diags[heap[e.fams[i][1]]], Diags[e.fams[i][2]])
         THEN "" ELSE "an object changed"
    [] OTHER -> ""
Advance ==
  /\ Live
  /\ bad' = LineBad
  /\ heap' = IF bad' = "" THEN After ELSE heap
  /\ l' = IF bad' = "" THEN l + 1 ELSE l
  /\ UNCHANGED <<ds, lev, r, s>>

\* begin to explore the result of line l
Begin ==
  /\ Live /\ e.t = "call" /\ e.k \in {"fam", "rel"}
  /\ ds' = [i \in 1..Len(e.a) |-> heap[e.a[i]]] \o <<IF e.k = "rel" THEN 1 ELSE e.d>>
  /\ lev' = 1
  /\ heap' = <<>>
  /\ UNCHANGED <<l, bad>>
  /\ r' = IF e.k = "rel" THEN 1 ELSE Diags[e.d].root
  /\ s' = IF e.k = "rel" THEN <<Diags[heap[e.a[1]]].root, Diags[heap[e.a[2]]].root>> ELSE Start'
N == e.n
Read(b) ==
  /\ ds # <<>> /\ lev <= N
  /\ r' = IF e.k = "rel" THEN 1 ELSE Step1(Diags[e.d], r, lev, b)
  /\ s' = IF e.k = "rel" THEN <<Step1(D(1), s[1], lev, b), Step1(D(2), s[2], lev, b)>> ELSE Step(b)
  /\ lev' = lev + 1
  /\ UNCHANGED <<l, heap, ds, bad>>
Next == Advance \/ Begin \/ Read(0) \/ Read(1)
Spec == Init /\ [][Next]_vars

LineOk == bad = ""
Exact ==
  (ds # <<>> /\ lev = N + 1) =>
     IF e.k = "fam" THEN (r = 2) = Accept
     ELSE IF e.op = "le" THEN s[1] = 2 => s[2] = 2
     ELSE ~ (s[1] = 2 /\ s[2] = 2)
=============================================================================
