----------------------------- MODULE Graphillion -----------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* State: the registered universes, the family objects a program holds     *)
(* (heap: handle -> class and value), the iterators it has open, and the   *)
(* files it has dumped families to.  Families are values: what an object   *)
(* holds is a set of sets of element numbers, nothing else.                *)
(*                                                                         *)
(* Every public call is one action.  Outcomes(u, c, op, Fs, x) is the set  *)
(* of results the call may have: k is the kind of reply, v the reply, s    *)
(* the value the first operand has afterwards.  All operations but choice, *)
(* pop and the iterators are deterministic.                                *)
(***************************************************************************)
EXTENDS Families, Graphs, TLC

VARIABLES uni, heap, its, files
vars == <<uni, heap, its, files>>

Classes == {"set", "graph", "vset", "ev", "di"}

(* uni: sn   size of the setset universe                                   *)
(*      g    the universe graph [n, E];  w, vw: its edge / vertex weights  *)
(*      gw   weights of the graph's vertices                               *)
(*      vn   size of the vertex universe                                   *)
(*      d    the universe digraph [n, E];  dw: its weights                 *)
(*      wx, dx: which edges were given a weight                            *)
(* Weights are stored in quarters: One stands for the weight 1.            *)
One4 == 4
NoGraph == [n |-> 0, E |-> <<>>]
NoUni == [sn |-> 0, g |-> NoGraph, w |-> <<>>, wx |-> <<>>, gw |-> <<>>, vn |-> 0, vw |-> <<>>,
          d |-> NoGraph, dw |-> <<>>, dx |-> <<>>]
Size(u, c) == CASE c = "set"   -> u.sn
                [] c = "graph" -> Len(u.g.E)
                [] c = "vset"  -> u.vn
                [] c = "ev"    -> Len(u.g.E) + u.g.n
                [] c = "di"    -> Len(u.d.E)
Elems(u, c) == 1..Size(u, c)
DefaultW(u, c) == CASE c = "set"   -> [i \in 1..u.sn |-> One4]
                    [] c = "graph" -> u.w
                    [] c = "vset"  -> u.vw
                    [] c = "ev"    -> u.w \o u.gw
                    [] c = "di"    -> u.dw
\* pairs: sequence of <<element, value>>; unspecified elements get d
Assign(n, pairs, d) ==
  TLCEval([i \in 1..n |-> LET S == {j \in 1..Len(pairs) : pairs[j][1] = i}
                  IN  IF S = {} THEN d ELSE pairs[Max(S)][2]])

ToFam(seqs) == {Rng(seqs[i]) : i \in 1..Len(seqs)}
GraphOf(u, c) == IF c = "di" THEN u.d ELSE u.g
EVEnds(u, i) == {Len(u.g.E) + v : v \in Ends(u.g, i)}    \* vertex elements
EVGraph(u, X) == X \cup UNION {EVEnds(u, i) : i \in X}

----------------------------------------------------------------------------
R(k, v, s) == [k |-> k, v |-> v, s |-> s]
Exc(name, F) == {R("exc", name, F)}       \* a failed call changes nothing

\* What an argument of type x.t selects: "fam" (second operand), "set", "elem",
\* "vert" (its incident edges, each as an element)
ArgFam(u, c, Fs, x) ==
  CASE x.t = "fam"  -> Fs[2]
    [] x.t = "set"  -> {Rng(x.e)}
    [] x.t = "elem" -> {{x.e}}
    [] x.t = "vert" -> LET g == GraphOf(u, c)
                       IN  {{i} : i \in Incident(g, Edges(g), x.e)}
IncEdges(u, c, v) == LET g == GraphOf(u, c) IN Incident(g, Edges(g), v)
NVert(u, c) == GraphOf(u, c).n

\* does the argument name something outside the universe?
Unknown(u, c, x) ==
  CASE x.t = "fam"  -> FALSE
    [] x.t = "set"  -> ~ (Rng(x.e) \subseteq Elems(u, c))
    [] x.t = "elem" -> x.e \notin Elems(u, c)
    [] x.t = "vert" -> x.e \notin 1..NVert(u, c)
    [] OTHER        -> TRUE

\* setset has no fixed universe: a new element extends it
GrowSize(u, x) ==
  CASE x.t = "set"  -> Max({u.sn} \cup Rng(x.e))
    [] x.t = "elem" -> Max({u.sn, x.e})
    [] x.t = "sets" -> Max({u.sn} \cup UNION ToFam(x.e))
    [] x.t = "con"  -> Max({u.sn} \cup Rng(x.inc) \cup Rng(x.exc))
    [] OTHER -> u.sn

EVConsistent(u, a) ==
  \A i \in a : i <= Len(u.g.E) => EVEnds(u, i) \subseteq a

New(u, c, x) ==
  CASE x.t = "none" -> {R("fam", {}, {})}
    [] x.t = "sets" ->
         IF c # "set" /\ ~ (UNION ToFam(x.e) \subseteq Elems(u, c)) THEN Exc("KeyError", {})
         ELSE IF c = "ev" /\ \E a \in ToFam(x.e) : ~ EVConsistent(u, a)
              THEN Exc("KeyError", {})
         ELSE {R("fam", ToFam(x.e), {})}
    [] x.t = "con" ->
         IF c # "set" /\ ~ (Rng(x.inc) \cup Rng(x.exc) \subseteq Elems(u, c))
           THEN Exc("KeyError", {})
         ELSE IF c = "ev"
           THEN IF x.inc = <<>> /\ x.exc = <<>>
                THEN {R("fam", {EVGraph(u, X) : X \in SUBSET Edges(u.g)}, {})}
                ELSE Exc("TypeError", {})
         ELSE IF Rng(x.inc) \cap Rng(x.exc) # {} THEN Exc("TypeError", {})
         ELSE {R("fam", FConstrained(1..(IF c = "set" THEN GrowSize(u, x) ELSE Size(u, c)),
                                     Rng(x.inc), Rng(x.exc)), {})}

----------------------------------------------------------------------------
(* Mutators *)
Add(u, c, F, x) ==
  CASE c # "set" /\ Unknown(u, c, x) -> Exc("KeyError", F)
    [] x.t = "vert" -> Exc("TypeError", F)
    [] c = "ev" /\ x.t = "elem" -> 
         IF x.e > Len(u.g.E) /\ x.m = "add_vertex" THEN {R("none", 0, FGraft(F, x.e))}
         ELSE Exc("TypeError", F)
    [] x.t = "set"  -> {R("none", 0, F \cup {Rng(x.e)})}
    [] x.t = "elem" -> {R("none", 0, FGraft(F, x.e))}

\* remove erases elements from the sets, or takes one set out
Remove(u, c, F, x, strict) ==
  CASE c # "set" /\ Unknown(u, c, x) -> Exc("KeyError", F)
    [] c = "ev" /\ x.t = "elem" -> Exc("TypeError", F)
    [] x.t = "set" ->
         IF strict /\ Rng(x.e) \notin F THEN Exc("KeyError", F)
         ELSE {R("none", 0, F \ {Rng(x.e)})}
    [] x.t = "elem" ->
         IF strict /\ x.e \notin UNION F THEN Exc("KeyError", F)
         ELSE {R("none", 0, FErase(F, x.e))}
    [] x.t = "vert" ->
         LET I == IncEdges(u, c, x.e)
         IN  IF strict /\ I \cap UNION F = {} THEN Exc("KeyError", F)
             ELSE {R("none", 0, {a \ I : a \in F})}

Flip(u, c, F, x) ==
  CASE c # "set" /\ Unknown(u, c, x) -> Exc("KeyError", F)
    [] x.t = "elem" -> {R("none", 0, FFlip(F, x.e))}
    [] OTHER -> Exc("TypeError", F)

----------------------------------------------------------------------------
(* Selection *)
Contains(u, c, F, x) ==
  CASE c # "set" /\ Unknown(u, c, x) -> Exc("KeyError", F)
    [] x.t = "set"  -> {R("bool", Rng(x.e) \in F, F)}
    [] x.t = "elem" -> {R("bool", x.e \in UNION F, F)}
    [] x.t = "vert" -> {R("bool", IncEdges(u, c, x.e) \cap UNION F # {}, F)}

Including(u, c, Fs, x) ==
  IF c # "set" /\ Unknown(u, c, x) THEN Exc("KeyError", Fs[1])
  ELSE {R("fam", FSupersets(Fs[1], ArgFam(u, c, Fs, x)), Fs[1])}
Excluding(u, c, Fs, x) ==
  IF c # "set" /\ Unknown(u, c, x) THEN Exc("KeyError", Fs[1])
  ELSE {R("fam", FNonSupersets(Fs[1], ArgFam(u, c, Fs, x)), Fs[1])}
Included(u, c, Fs, x) ==
  CASE c # "set" /\ Unknown(u, c, x) -> Exc("KeyError", Fs[1])
    [] x.t \in {"elem", "vert"} -> Exc("TypeError", Fs[1])
    [] OTHER -> {R("fam", FSubsets(Fs[1], ArgFam(u, c, Fs, x)), Fs[1])}

----------------------------------------------------------------------------
(* Costs: x.w is a sequence of <<element, <<hi, lo>>>>, x.b = <<hi, lo>>.   *)
CostBad(u, c, x) ==
  \/ {x.w[i][1] : i \in 1..Len(x.w)} # Elems(u, c)     \* one is missing
  \/ \E i \in 1..Len(x.w) : ~ (BigLe(<<-32768, 0>>, x.w[i][2]) /\ BigLe(x.w[i][2], <<32767, 65535>>))
CostKey(u, c, x) ==
  \E i \in 1..Len(x.w) : x.w[i][1] \notin Elems(u, c)
Cost(u, c, op, F, x) ==
  IF CostKey(u, c, x) THEN Exc("KeyError", F)
  ELSE IF CostBad(u, c, x) THEN Exc("AssertionError", F)
  ELSE LET w == Assign(Size(u, c), x.w, <<0, 0>>)
       IN  CASE op = "cost_le" -> {R("fam", FCostLe(F, w, x.b), F)}
             [] op = "cost_ge" -> {R("fam", FCostGe(F, w, x.b), F)}
             [] op = "cost_eq" -> {R("fam", FCostEq(F, w, x.b), F)}

(* Probabilities p/d: x.p is a sequence of <<element, p>>, x.d the common   *)
(* denominator; the reply is the numerator over d^Size.                     *)
Probability(u, c, F, x) ==
  LET n == Size(u, c)
      P == {x.p[i][1] : i \in 1..Len(x.p)}
  IN  IF ~ (P \subseteq 1..n) THEN Exc("KeyError", F)
      ELSE IF P # 1..n \/ \E i \in 1..Len(x.p) : x.p[i][2] < 0 \/ x.p[i][2] > x.d
      THEN Exc("AssertionError", F)
      ELSE {R("num", FProbNum(1..n, F, Assign(n, x.p, 0), x.d), F)}

Reliability(u, x) ==
  LET g == u.g
      p == Assign(Len(g.E), x.p, x.d)
  IN  IF \/ ~ (Rng(x.ts) \subseteq V(g))
         \/ \E i \in 1..Len(x.p) : x.p[i][1] \notin Edges(g)
      THEN Exc("KeyError", {})
      ELSE {R("num", FProbNum(Edges(g), {X \in SUBSET Edges(g) : TerminalsConnected(g, X, Rng(x.ts))},
                              p, x.d), {})}

----------------------------------------------------------------------------
(* Graph-type constructors.  With an operand they search within it.         *)
\* vg: sequence of vertex groups as the user gives them; an empty group is a
\* component that contains no vertex of the other groups
Cons(x) == [vg |-> SelectSeq([i \in 1..Len(x.vg) |-> Rng(x.vg[i])], LAMBDA s : s # {}),
            nc |-> IF x.vg = <<>> THEN -1 ELSE Cardinality({i \in 1..Len(x.vg) : x.vg[i] = <<>>}),
            dc |-> {<<x.dc[i][1], Rng(x.dc[i][2])>> : i \in 1..Len(x.dc)},
            ne |-> [i \in 1..Len(x.ne) |-> Rng(x.ne[i])],
            nl |-> x.nl, lc |-> x.lc]
GroupKey(g, vg) == \E i \in 1..Len(vg) : ~ (Rng(vg[i]) \subseteq V(g))

One(vs) == IF vs = <<>> THEN [vg |-> <<>>, nc |-> 1] ELSE [vg |-> <<Rng(vs)>>, nc |-> 0]
OneGroup(g, X, vs) == Groups(g, X, One(vs).vg, One(vs).nc)

GraphPred(g, op, x, X) ==
  CASE op = "graphs" -> Satisfies(g, X, Cons(x))
    [] op \in {"connected_components", "steiner_subgraphs"} -> OneGroup(g, X, x.vs)
    [] op = "steiner_trees" -> OneGroup(g, X, x.vs) /\ Acyclic(g, X)
    [] op = "steiner_cycles" -> IsCycle(g, X) /\ Rng(x.vs) \subseteq VertsOf(g, X)
    [] op = "steiner_paths" -> IsPath(g, X) /\ Rng(x.vs) \subseteq VertsOf(g, X)
    [] op = "trees" -> IsTree(g, X, x.root) /\ (x.sp => IsSpanning(g, X))
    [] op = "forests" ->
         /\ IsRootedForest(g, X, Rng(x.vs))
         /\ x.sp => V(g) \ Rng(x.vs) \subseteq VertsOf(g, X)
    [] op = "cycles" -> IsCycle(g, X) /\ (x.sp => IsSpanning(g, X))
    [] op = "paths" ->
         /\ IsPath(g, X) /\ Rng(x.vs) \subseteq PathEnds(g, X)
         /\ x.sp => IsSpanning(g, X)
    [] op = "matchings" -> IsMatching(g, X, [v \in V(g) |-> 1])
    [] op = "perfect_matchings" -> IsFactor(g, X, [v \in V(g) |-> 1])
    [] op = "k_matchings" -> IsMatching(g, X, [v \in V(g) |-> x.k])
    [] op = "b_matchings" -> IsMatching(g, X, Assign(g.n, x.b, 0))
    [] op = "k_factors" -> IsFactor(g, X, [v \in V(g) |-> x.k])
    [] op = "f_factors" -> IsFactor(g, X, Assign(g.n, x.b, 0))
    [] op = "cliques" -> X # {} /\ IsClique(g, X, x.k)
    [] op = "bicliques" -> X # {} /\ IsBiclique(g, X, x.k, x.k)
    [] op = "regular_graphs" -> IsRegular(g, X, x.lo, x.hi) /\ (x.co => Connected(g, X))
    [] op = "bipartite_graphs" -> IsBipartite(g, X) /\ (x.co => Connected(g, X))
    [] op = "regular_bipartite_graphs" ->
         IsRegular(g, X, x.lo, x.hi) /\ IsBipartite(g, X) /\ (x.co => Connected(g, X))
    [] op = "degree_distribution_graphs" -> HasDegDist(g, X, x.dd) /\ (x.co => X # {} /\ Connected(g, X))
    [] op = "letter_P_graphs" ->
         /\ Connected(g, X)
         /\ \A v \in V(g) : Deg(g, X, v) <= 3
         /\ Cardinality({v \in V(g) : Deg(g, X, v) = 1}) = 1
         /\ Cardinality({v \in V(g) : Deg(g, X, v) = 3}) = 1
    [] op = "partitions" ->
         IsPartition(g, X) /\ x.lo <= NumParts(g, X) /\ NumParts(g, X) <= x.hi
    [] op = "balanced_partitions" ->
         Balanced(g, X, Assign(g.n, x.w, 1), x.num, x.den, x.lo, x.hi, x.nc)
    [] op = "induced_graphs" -> IsConnInduced(g, X)
    [] op = "weighted_induced_graphs" ->
         /\ IsConnInduced(g, X)
         /\ LET s == VW(Assign(g.n, x.w, 1), VertsOf(g, X)) IN x.lo <= s /\ s <= x.hi
    [] op = "class" -> InClass(g, x.cls, X)

DiPred(g, op, x, X) ==
  CASE op = "directed_cycles" -> IsDiCycle(g, X)
    [] op = "directed_hamiltonian_cycles" -> IsDiCycle(g, X) /\ IsSpanning(g, X)
    [] op = "directed_st_paths" -> IsDiPath(g, X, x.s, x.e) /\ (x.sp => IsSpanning(g, X))
    [] op = "rooted_forests" -> IsRootedForestD(g, X, Rng(x.vs), x.sp)
    [] op = "rooted_trees" -> IsRootedTreeD(g, X, x.root, x.sp)
    [] op = "digraphs" ->
         /\ \A i \in 1..Len(x.ic) : InDeg(g, X, x.ic[i][1]) \in Rng(x.ic[i][2])
         /\ \A i \in 1..Len(x.oc) : OutDeg(g, X, x.oc[i][1]) \in Rng(x.oc[i][2])

VertexPred(h, N, op, x, W) ==
  CASE op = "independent_sets" -> IsIndep(h, W, x.k)
    [] op = "dominating_sets" -> IsDominating(h, N, W, x.k)
    [] op = "vertex_covers" -> IsVertexCover(h, W)
    [] op = "vcliques" -> IsVClique(h, W)

GraphOps == {"graphs", "connected_components", "steiner_subgraphs", "steiner_trees",
  "steiner_cycles", "steiner_paths", "trees", "forests", "cycles", "paths", "matchings",
  "perfect_matchings", "k_matchings", "b_matchings", "k_factors", "f_factors", "cliques",
  "bicliques", "regular_graphs", "bipartite_graphs", "regular_bipartite_graphs",
  "degree_distribution_graphs", "letter_P_graphs", "partitions", "balanced_partitions",
  "induced_graphs", "weighted_induced_graphs", "class"}
DiOps == {"directed_cycles", "directed_hamiltonian_cycles", "directed_st_paths",
  "rooted_forests", "rooted_trees", "digraphs"}
VertexOps == {"independent_sets", "dominating_sets", "vertex_covers", "vcliques"}

\* an argument of a constructor that names an unknown vertex
ConsUnknown(g, op, x) ==
  CASE op = "graphs" ->
         \/ GroupKey(g, x.vg)
         \/ \E i \in 1..Len(x.dc) : x.dc[i][1] \notin V(g)
         \/ x.badlc
    [] op \in {"connected_components", "steiner_subgraphs", "steiner_trees", "steiner_cycles",
               "steiner_paths", "forests"} -> ~ (Rng(x.vs) \subseteq V(g))
    [] op = "trees" -> x.root \notin 0..g.n
    [] op \in {"balanced_partitions", "weighted_induced_graphs"} ->
         \E i \in 1..Len(x.w) : x.w[i][1] \notin V(g)
    [] op = "digraphs" ->
         \/ \E i \in 1..Len(x.ic) : x.ic[i][1] \notin V(g)
         \/ \E i \in 1..Len(x.oc) : x.oc[i][1] \notin V(g)
    [] op = "directed_st_paths" -> ~ ({x.s, x.e} \subseteq V(g))
    [] op = "rooted_forests" -> ~ (Rng(x.vs) \subseteq V(g))
    [] op = "rooted_trees" -> x.root \notin V(g)
    [] OTHER -> FALSE

Construct(u, op, Fs, x) ==
  LET g  == IF op \in DiOps THEN u.d ELSE u.g
      F1 == IF Fs = <<>> THEN {} ELSE Fs[1]
      dom == IF Fs = <<>> THEN SUBSET Edges(g) ELSE F1
  IN  IF ConsUnknown(g, op, x)
      THEN IF op \in DiOps \ {"digraphs"}
           THEN Exc("AssertionError", F1) \cup Exc("KeyError", F1)
           ELSE Exc("KeyError", F1)
      ELSE IF op \in DiOps
      THEN {R("fam", {X \in dom : DiPred(g, op, x, X)}, F1)}
      ELSE IF op = "bicliques" /\ x.k # x.k2 THEN Exc("TypeError", F1)
      ELSE {R("fam", {X \in dom : GraphPred(g, op, x, X)}, F1)}

ConstructV(u, op, Fs, x) ==
  LET N == 1..u.vn
      h == {Rng(x.h[i]) : i \in 1..Len(x.h)}
      F1 == IF Fs = <<>> THEN {} ELSE Fs[1]
      dom == IF Fs = <<>> THEN SUBSET N ELSE F1
  IN  IF ~ (UNION h \subseteq N) THEN Exc("ValueError", F1)
      ELSE {R("fam", {W \in dom : VertexPred(h, N, op, x, W)}, F1)}

----------------------------------------------------------------------------
FamOps2 == {"union", "intersection", "difference", "symmetric_difference"}
FamOp2(op, F, G) == CASE op = "union" -> FUnion(F, G)
                      [] op = "intersection" -> FInter(F, G)
                      [] op = "difference" -> FDiff(F, G)
                      [] op = "symmetric_difference" -> FSym(F, G)
Multi(op, Fs) == LET RECURSIVE M(_, _)
                     M(F, i) == IF i > Len(Fs) THEN F ELSE M(FamOp2(op, F, Fs[i]), i + 1)
                 IN  M(Fs[1], 2)
InPlace == [update |-> "union", intersection_update |-> "intersection",
            difference_update |-> "difference",
            symmetric_difference_update |-> "symmetric_difference"]

\* 0 divided by 0 may be any family that times 0 gives 0, or be refused
DivByEmpty(F, k) ==
  Exc("ZeroDivisionError", F)
    \cup IF F # {} THEN {}
         ELSE IF k = "fam" THEN {R("fam", {}, F), R("fam", {{}}, F)}
         ELSE {R("self", 0, {}), R("self", 0, {{}})}

Outcomes(u, c, op, Fs, x) ==
  LET F == Fs[1]
      G == Fs[2]
      U == Elems(u, c)
      fam(f) == {R("fam", f, F)}
      self(f) == {R("self", 0, f)}
      bool(b) == {R("bool", b, F)}
      none(f) == {R("none", 0, f)}
  IN
  CASE op = "new"  -> New(u, c, x)
    [] op \in GraphOps \cup DiOps -> Construct(u, op, Fs, x)
    [] op \in VertexOps -> ConstructV(u, op, Fs, x)
    [] op \in FamOps2 -> fam(Multi(op, Fs))
    [] op \in DOMAIN InPlace -> self(Multi(InPlace[op], Fs))
    [] op = "join" -> fam(FJoin(F, G))
    [] op = "meet" -> fam(FMeet(F, G))
    [] op = "quotient"  -> IF G = {} THEN DivByEmpty(F, "fam")
                           ELSE fam(FQuotient(F, G))
    [] op = "remainder" -> IF G = {} THEN DivByEmpty(F, "fam")
                           ELSE fam(FRemainder(F, G))
    [] op = "quotient_update"  -> IF G = {} THEN DivByEmpty(F, "self")
                                  ELSE self(FQuotient(F, G))
    [] op = "remainder_update" -> IF G = {} THEN DivByEmpty(F, "self")
                                  ELSE self(FRemainder(F, G))
    [] op = "subsets" -> fam(FSubsets(F, G))
    [] op = "supersets" -> fam(FSupersets(F, G))
    [] op = "nonsubsets" -> fam(FNonSubsets(F, G))
    [] op = "nonsupersets" -> fam(FNonSupersets(F, G))
    [] op = "including" -> Including(u, c, Fs, x)
    [] op = "excluding" -> Excluding(u, c, Fs, x)
    [] op = "included"  -> Included(u, c, Fs, x)
    [] op \in {"copy", "reload"} -> fam(F)
    [] op = "invert"  -> fam(FInvert(U, F))
    [] op = "complement" -> fam(FFlipAll(U, F))
    [] op = "flipall" -> none(FFlipAll(U, F))
    [] op = "flip"    -> Flip(u, c, F, x)
    [] op = "minimal" -> fam(FMinimal(F))
    [] op = "maximal" -> fam(FMaximal(F))
    [] op = "hitting" -> fam(FHitting(U, F))
    [] op = "smaller" -> fam(FSmaller(F, x.k))
    [] op = "larger"  -> fam(FLarger(F, x.k))
    [] op = "size"    -> fam(FSize(F, x.k))
    [] op = "remove_some" -> fam(FRemoveSome(F))
    [] op = "add_some"    -> fam(FAddSome(U, F))
    [] op = "remove_add_some" -> fam(FRemoveAddSome(U, F))
    [] op = "add"     -> Add(u, c, F, x)
    [] op = "remove"  -> Remove(u, c, F, x, TRUE)
    [] op = "discard" -> Remove(u, c, F, x, FALSE)
    [] op = "clear"   -> none({})
    [] op = "pop"     -> IF F = {} THEN Exc("KeyError", F)
                         ELSE {R("set", a, F \ {a}) : a \in F}
    [] op = "choice"  -> IF F = {} THEN Exc("KeyError", F)
                         ELSE {R("set", a, F) : a \in F}
    [] op = "contains" -> Contains(u, c, F, x)
    [] op = "bool" -> bool(F # {})
    [] op = "len"  -> {R("num", Cardinality(F), F)}
    [] op = "eq" -> bool(F = G)
    [] op = "ne" -> bool(F # G)
    [] op \in {"le", "issubset"} -> bool(FLe(F, G))
    [] op = "lt" -> bool(FLt(F, G))
    [] op \in {"ge", "issuperset"} -> bool(FLe(G, F))
    [] op = "gt" -> bool(FLt(G, F))
    [] op = "isdisjoint" -> bool(FDisjoint(F, G))
    [] op = "samedump" -> bool(F = G)     \* dumps() of two objects are the same text
    [] op \in {"cost_le", "cost_ge", "cost_eq"} -> Cost(u, c, op, F, x)
    [] op = "probability" -> Probability(u, c, F, x)
    [] op = "reliability" -> Reliability(u, x)
    [] op = "to_vset" -> fam({VertsOf(u.g, X) : X \in F})
    [] op = "to_ev"   -> fam({EVGraph(u, X) : X \in F})
    \* families too large to list, as met by the candidates F
    [] op = "near_hitting" -> fam({a \in F : \A b \in G : a \cap b # {}})
    [] op = "near_invert"  -> fam(F \ G)
    [] op = "near_constrained" -> fam({a \in F : Rng(x.inc) \subseteq a /\ Rng(x.exc) \cap a = {}})
    [] op = "near_forbidden" -> fam({X \in F : ForbiddenFree(u.g, X, G)})
    [] op = "forbidden" -> fam({X \in SUBSET Edges(u.g) : ForbiddenFree(u.g, X, F)})

ResultClass(c, op) == CASE op = "to_vset" -> "vset" [] op = "to_ev" -> "ev" [] OTHER -> c
\* A setset has no fixed universe: a new element that a result may contain
\* extends it; one that is only asked about may do so.
Grows(c, op) == c = "set" /\ op \in {"new", "add", "flip"}
MayGrow(c, op) == c = "set" /\ op \in {"new", "add", "flip", "remove", "discard", "contains",
                                        "including", "excluding", "included"}

----------------------------------------------------------------------------
(* Actions *)
Init == uni = NoUni /\ heap = <<>> /\ its = <<>> /\ files = <<>>

Families1(hs) == [i \in 1..Len(hs) |-> heap[hs[i]].f]

\* what a call of op on the objects hs with outcome o does; h is the handle
\* that its result gets if it is a family
Effect(c, op, hs, x, h, o) ==
  /\ heap' = LET h1 == IF hs = <<>> THEN heap ELSE [heap EXCEPT ![hs[1]].f = o.s]
             IN  IF o.k = "fam" THEN (h :> [c |-> ResultClass(c, op), f |-> o.v]) @@ h1 ELSE h1
  /\ uni' \in IF ~ MayGrow(c, op) THEN {uni}
             ELSE LET grown == [uni EXCEPT !.sn = GrowSize(uni, x)]
                  IN  IF Grows(c, op) /\ o.k # "exc" THEN {grown} ELSE {uni, grown}
  /\ UNCHANGED <<its, files>>
Call(c, op, hs, x, h) ==
  /\ \A i \in 1..Len(hs) : hs[i] \in DOMAIN heap
  /\ \E o \in Outcomes(uni, c, op, Families1(hs), x) : Effect(c, op, hs, x, h, o)

\* Iterators work on the family as it is when the iteration begins.
First(kind, w, todo) ==    \* what may come next
  CASE kind \in {"iter", "rand"} -> todo
    [] kind = "min" -> {a \in todo : \A b \in todo : Weight(w, a) <= Weight(w, b)}
    [] kind = "max" -> {a \in todo : \A b \in todo : Weight(w, a) >= Weight(w, b)}
IterW(c, x) == IF x.given THEN Assign(Size(uni, c), x.w, x.df) ELSE DefaultW(uni, c)
\* the outcomes of asking for the next item
Items(kind, w, todo) ==
  IF todo = {} THEN {R("stop", 0, {})} ELSE {R("set", a, {}) : a \in First(kind, w, todo)}
\* begins an iteration and takes its first item
IterOpen(h, i, x, o) ==
  /\ h \in DOMAIN heap
  /\ LET F == heap[h].f
         w == IterW(heap[h].c, x)
     IN  /\ o \in Items(x.kind, w, F)
         /\ its' = (i :> [kind |-> x.kind, w |-> w,
                          todo |-> IF o.k = "set" THEN F \ {o.v} ELSE {}]) @@ its
  /\ UNCHANGED <<uni, heap, files>>
IterNext(i, o) ==
  /\ i \in DOMAIN its
  /\ LET t == its[i]
     IN  /\ o \in Items(t.kind, t.w, t.todo)
         /\ its' = [its EXCEPT ![i].todo = IF o.k = "set" THEN t.todo \ {o.v} ELSE {}]
  /\ UNCHANGED <<uni, heap, files>>

\* Random iteration: any order of the members is equally likely.  Of n
\* independent trials with probability a/b each, c succeed; c is within
\* seven standard deviations of its mean (n*b < 2^20).
ISqrt(n) == CHOOSE k \in 0..1500 : k * k <= n /\ n < (k + 1) * (k + 1)
Fair(c, n, a, b) ==
  LET d == c * b - n * a IN (IF d < 0 THEN -d ELSE d) <= 7 * (ISqrt(n * a * (b - a)) + 1)
RECURSIVE Arrangements(_, _)
Arrangements(m, k) == IF k = 0 THEN 1 ELSE m * Arrangements(m - 1, k - 1)
RECURSIVE SumPairs(_, _)
SumPairs(got, i) == IF i = 0 THEN 0 ELSE got[i][2] + SumPairs(got, i - 1)
\* got: which k members n iterators began with, each with how often
FairDraws(F, k, n, got) ==
  LET A == Arrangements(Cardinality(F), k)
  IN  /\ \A i \in 1..Len(got) : /\ Len(got[i][1]) = k
                               /\ ToFam(got[i][1]) \subseteq F
                               /\ Cardinality(ToFam(got[i][1])) = k
                               /\ Fair(got[i][2], n, 1, A)
      /\ Cardinality({[j \in 1..k |-> Rng(got[i][1][j])] : i \in 1..Len(got)}) = Len(got)
      /\ SumPairs(got, Len(got)) = n
      /\ Len(got) < A => Fair(0, n, 1, A)
\* n draws from the family of all sets with inc, without exc, meeting hit (all
\* among elements 1..8): what they have of those, and how often they have an
\* element of each block of the others
FairBigDraws(u, inc, exc, hit, n, first, blocks, tally) ==
  LET k == Cardinality(hit)
      times(S) == Cardinality({i \in 1..n : S \subseteq Rng(first[i])})
      meets(S) == hit = {} \/ hit \cap S # {}
      free == 1..8 \ (inc \cup exc \cup hit)
  IN  /\ Len(first) = n
      /\ \A i \in 1..n : LET S == Rng(first[i])
                         IN  inc \subseteq S /\ exc \cap S = {} /\ meets(S) /\ S \subseteq 1..8
      /\ \A a \in free : Fair(times({a}), n, 1, 2)
      /\ \A a, b \in free : a # b => Fair(times({a, b}), n, 1, 4)
      /\ \A a \in hit : Fair(times({a}), n, 2^(k - 1), 2^k - 1)
      /\ \A i \in 1..Len(blocks) : Fair(tally[i], n * (blocks[i][2] - blocks[i][1] + 1), 1, 2)

\* one random iterator over the family of all sets with inc and without exc,
\* asked at most `most' times: n sets came, v of them different
DistinctDraws(u, inc, exc, most, n, v, end) ==
  LET m == 2^Cardinality(Elems(u, "set") \ (inc \cup exc))
  IN  v = n /\ n = Min({m, most}) /\ end = (m < most)

\* repr and str: members only, and all of them unless the text ends in " ...";
\* smaller sets come first
TextOK(F, full, shown) ==
  LET S == {Rng(shown[i]) : i \in 1..Len(shown)}
  IN  /\ Cardinality(S) = Len(shown)
      /\ S \subseteq F
      /\ full => S = F
      /\ ~ full => F # {}
      /\ \A i \in 1..(Len(shown) - 1) : Len(shown[i]) <= Len(shown[i + 1])

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Drop(hs) ==                    \* the program lets go of objects
  /\ heap' = Without(heap, hs)
  /\ UNCHANGED <<uni, its, files>>
DropIter(i) == its' = Without(its, {i}) /\ UNCHANGED <<uni, heap, files>>

\* Memory reclamation, thread counts and anything else internal: invisible.
Internal == UNCHANGED vars

\* set_universe of one class; objects over the old universe are let go.
\* bad: the universe is empty, has a duplicate, or names an unknown
\* traversal or source; it is rejected and nothing changes
Depends == [set |-> {"set"}, graph |-> {"graph", "vset", "ev"}, vset |-> {"vset"}, di |-> {"di"}]
SetUniverse(c, x, ok) ==
  /\ ok = ~ x.bad
  /\ IF x.bad THEN UNCHANGED vars
     ELSE /\ uni' = CASE c = "set"   -> [uni EXCEPT !.sn = x.n]
                      [] c = "graph" -> [uni EXCEPT !.g = [n |-> x.n, E |-> x.E], !.w = x.w, !.wx = x.wx,
                                                    !.gw = x.vw, !.vn = x.n, !.vw = x.vw]
                      [] c = "vset"  -> [uni EXCEPT !.vn = x.n, !.vw = x.w]
                      [] c = "di"    -> [uni EXCEPT !.d = [n |-> x.n, E |-> x.E], !.dw = x.w, !.dx = x.wx]
          /\ heap' = Without(heap, {h \in DOMAIN heap : heap[h].c \in Depends[c]})
          /\ its' = <<>>
          /\ UNCHANGED files

\* Files: name -> families not yet read, in the order they were written.
Dump(h, name) ==
  /\ h \in DOMAIN heap
  /\ files' = (name :> ((IF name \in DOMAIN files THEN files[name] ELSE <<>>)
                        \o <<heap[h]>>)) @@ files
  /\ UNCHANGED <<uni, heap, its>>
Load(name, h) ==               \* takes the next family from the file
  /\ name \in DOMAIN files /\ files[name] # <<>>
  /\ heap' = (h :> Head(files[name])) @@ heap
  /\ files' = [files EXCEPT ![name] = Tail(@)]
  /\ UNCHANGED <<uni, its>>
\* A new process that registers the same universes: only files survive.
Restart == heap' = <<>> /\ its' = <<>> /\ UNCHANGED <<uni, files>>
=============================================================================
