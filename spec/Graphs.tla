------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Textbook graph theory over a universe graph, used to say which          *)
(* subgraphs each GraphSet / GraphClass / VertexSetSet / DiGraphSet        *)
(* constructor has to return.                                              *)
(*                                                                         *)
(* A graph g is a record [n, E]: vertices are 1..g.n, and g.E is a         *)
(* sequence of pairs <<u, v>>; edge number i is g.E[i].  A subgraph is a   *)
(* set X of edge numbers (it has no isolated vertices: its vertices are    *)
(* the endpoints of X).  For directed graphs <<u, v>> is the arc u -> v.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

V(g) == 1..g.n
Edges(g) == 1..Len(g.E)
Ends(g, i) == {g.E[i][1], g.E[i][2]}
VertsOf(g, X) == UNION {Ends(g, i) : i \in X}
Incident(g, X, v) == {i \in X : g.E[i][1] = v \/ g.E[i][2] = v}
Deg(g, X, v) == Cardinality(Incident(g, X, v))
DegF(g, X) == [v \in V(g) |-> Deg(g, X, v)]

\* Partition of the vertex set W into connected components of (W, X)
RECURSIVE Merge(_, _, _)
Merge(g, P, X) ==
  IF X = {} THEN P
  ELSE LET i == CHOOSE x \in X : TRUE
           touched == {B \in P : g.E[i][1] \in B \/ g.E[i][2] \in B}
       IN  Merge(g, (P \ touched) \cup {UNION touched}, X \ {i})
CompsOn(g, W, X) == Merge(g, {{v} : v \in W}, X)
Comps(g, X) == CompsOn(g, V(g), X)              \* including isolated vertices
EdgeComps(g, X) == CompsOn(g, VertsOf(g, X), X) \* components with an edge

Connected(g, X) == Cardinality(EdgeComps(g, X)) <= 1
Acyclic(g, X) ==                                 \* |W| - |X| components
  LET W == VertsOf(g, X)
  IN  Cardinality(CompsOn(g, W, X)) = Cardinality(W) - Cardinality(X)

----------------------------------------------------------------------------
(* graphs(): the constraint search.                                        *)
(* c is a record of constraints:                                           *)
(*   vg   sequence of vertex sets, nonempty groups                         *)
(*   nc   -1: any number of further components; k: exactly k components    *)
(*        (with an edge) that contain no vertex of a group                 *)
(*   dc   set of <<v, set of allowed degrees>>                             *)
(*   ne   {} (no constraint) or <<set of allowed sizes>> in a 1-tuple set  *)
(*   nl   no loop (acyclic)                                                *)
(*   lc   sequence of <<w, lo, hi>>; w is a function Edges(g) -> Int       *)
Groups(g, X, vg, nc) ==
  \/ nc = -1 /\ vg = <<>>
  \/ LET P == Comps(g, X)
         colored == UNION {vg[i] : i \in 1..Len(vg)}
         Blk(v) == CHOOSE B \in P : v \in B
         one == \A i \in 1..Len(vg) : Cardinality({Blk(v) : v \in vg[i]}) = 1
         sep == \A i, j \in 1..Len(vg) :
                  i < j => {Blk(v) : v \in vg[i]} \cap {Blk(v) : v \in vg[j]} = {}
         free == {B \in EdgeComps(g, X) : B \cap colored = {}}
     IN  one /\ sep /\ (nc = -1 \/ Cardinality(free) = nc)

Lin(w, X) == FoldSet(LAMBDA i, t : t + w[i], 0, X)
Satisfies(g, X, c) ==
  /\ \A r \in c.dc : Deg(g, X, r[1]) \in r[2]
  /\ c.ne = <<>> \/ Cardinality(X) \in c.ne[1]
  /\ \A i \in 1..Len(c.lc) :
       LET s == Lin(c.lc[i][1], X) IN c.lc[i][2] <= s /\ s <= c.lc[i][3]
  /\ c.nl => Acyclic(g, X)
  /\ Groups(g, X, c.vg, c.nc)

----------------------------------------------------------------------------
(* Named graph families.  Each takes the degree function once.             *)
IsOneComp(g, X) == X # {} /\ Connected(g, X)

\* a nonempty tree; if root is given (root # 0) it contains the root or is
\* empty (the trivial tree {root})
IsTree(g, X, root) ==
  IF root = 0 THEN IsOneComp(g, X) /\ Acyclic(g, X)
  ELSE Connected(g, X) /\ Acyclic(g, X) /\ (X # {} => root \in VertsOf(g, X))
IsSpanning(g, X) == VertsOf(g, X) = V(g)
IsSpanningTree(g, X) ==
  IsSpanning(g, X) /\ Connected(g, X) /\ Cardinality(X) = g.n - 1

\* every tree has exactly one root; trivial trees are allowed at roots
IsRootedForest(g, X, roots) ==
  /\ Acyclic(g, X)
  /\ \A B \in EdgeComps(g, X) : Cardinality(B \cap roots) = 1
IsCycle(g, X) ==
  IsOneComp(g, X) /\ \A v \in VertsOf(g, X) : Deg(g, X, v) = 2
IsPath(g, X) ==                                    \* at least one edge
  /\ IsOneComp(g, X) /\ Acyclic(g, X)
  /\ \A v \in VertsOf(g, X) : Deg(g, X, v) <= 2
PathEnds(g, X) == {v \in V(g) : Deg(g, X, v) = 1}
IsPathBetween(g, X, s, t) == IsPath(g, X) /\ PathEnds(g, X) = {s, t}
IsPathFrom(g, X, s) == IsPath(g, X) /\ s \in PathEnds(g, X)

IsMatching(g, X, b) == \A v \in V(g) : Deg(g, X, v) <= b[v]
IsFactor(g, X, f)   == \A v \in V(g) : Deg(g, X, v) = f[v]

IsClique(g, X, k) ==
  LET W == VertsOf(g, X)
  IN  /\ Cardinality(W) = k /\ Cardinality(X) = (k * (k - 1)) \div 2
\* two-colourable.  The first definition is the textbook one; the second,
\* which TLC can evaluate on large graphs, says that no vertex is joined to its
\* own copy in the bipartite double cover.
TwoColourable(g, X) ==
  \E A \in SUBSET VertsOf(g, X) : \A i \in X : Cardinality(Ends(g, i) \cap A) = 1
IsBipartite(g, X) ==
  LET m == Len(g.E)
      c == [n |-> 2 * g.n, E |-> [i \in 1..(2 * m) |->
              IF i <= m THEN <<g.E[i][1], g.E[i][2] + g.n>> ELSE <<g.E[i - m][1] + g.n, g.E[i - m][2]>>]]
  IN  \A B \in EdgeComps(c, X \cup {m + i : i \in X}) : \A v \in B : v + g.n \notin B
ASSUME LET K == [n |-> 4, E |-> <<<<1, 2>>, <<3, 1>>, <<1, 4>>, <<2, 3>>, <<4, 2>>, <<3, 4>>>>]
       IN  \A X \in SUBSET (1..6) : IsBipartite(K, X) = TwoColourable(K, X)
IsBiclique(g, X, a, b) ==
  LET W == VertsOf(g, X)
  IN  /\ Cardinality(W) = a + b /\ Cardinality(X) = a * b
      /\ \E A \in kSubset(a, W) : \A i \in X : Cardinality(Ends(g, i) \cap A) = 1
IsRegular(g, X, lo, hi) ==                          \* nonempty
  /\ X # {}
  /\ LET ds == {Deg(g, X, v) : v \in VertsOf(g, X)}
     IN  Cardinality(ds) = 1 /\ \A d \in ds : lo <= d /\ d <= hi
IsSteiner(g, X, T) == T \subseteq VertsOf(g, X) /\ Connected(g, X)
\* number of vertices of each degree; dd: sequence, dd[d+1] is the required
\* number of vertices of degree d, or -1 (any); larger degrees are not allowed
HasDegDist(g, X, dd) ==
  /\ \A v \in V(g) : Deg(g, X, v) < Len(dd)
  /\ \A i \in 1..Len(dd) :
       dd[i] = -1 \/ Cardinality({v \in V(g) : Deg(g, X, v) = i - 1}) = dd[i]

----------------------------------------------------------------------------
(* Vertex partitions and induced subgraphs *)
InducedEdges(g, W) == {i \in Edges(g) : Ends(g, i) \subseteq W}
\* all edges inside the parts of a partition of V into connected parts
IsPartition(g, X) ==
  X = UNION {InducedEdges(g, B) : B \in Comps(g, X)}
NumParts(g, X) == Cardinality(Comps(g, X))
VW(w, B) == FoldSet(LAMBDA v, t : t + w[v], 0, B)
Balanced(g, X, w, num, den, lower, upper, nc) ==
  \* max part weight <= (num/den) * min part weight, or no limit if num = 0
  LET P == Comps(g, X)
      ws == {VW(w, B) : B \in P}
  IN  /\ IsPartition(g, X)
      /\ nc = -1 \/ Cardinality(P) = nc
      /\ \A x \in ws : lower <= x /\ x <= upper
      /\ num = 0 \/ \A x, y \in ws : den * x <= num * y
IsConnInduced(g, X) ==                              \* at least one edge
  IsOneComp(g, X) /\ X = InducedEdges(g, VertsOf(g, X))

(* X contains no member of forbidden family FF as an induced subgraph.     *)
(* The subgraph H is induced in X when X restricted to the vertices of H   *)
(* is exactly H.                                                           *)
InducedIn(g, X, W) == {i \in X : Ends(g, i) \subseteq W}
ForbiddenFree(g, X, FF) ==
  \A H \in FF : H \subseteq X => InducedIn(g, X, VertsOf(g, H)) # H

----------------------------------------------------------------------------
(* Graph classes, by their usual definitions on (VertsOf(X), X).           *)
Adj(g, X, u, v) == \E i \in X : Ends(g, i) = {u, v}
HasInd(g, X, k, T(_, _, _)) ==   \* some k vertices induce a subgraph of kind T
  /\ k <= Cardinality(VertsOf(g, X))
  /\ \E W \in kSubset(k, VertsOf(g, X)) : T(g, W, InducedIn(g, X, W))
DegSeqIs(g, H, W, bag) ==            \* bag: function degree -> number of vertices
  \A d \in 0..Cardinality(W) :
     Cardinality({v \in W : Deg(g, H, v) = d}) = (IF d \in DOMAIN bag THEN bag[d] ELSE 0)
IsClawIn(g, W, H)    == Cardinality(H) = 3 /\ DegSeqIs(g, H, W, (1 :> 3) @@ (3 :> 1))
IsDiamondIn(g, W, H) == Cardinality(H) = 5 /\ DegSeqIs(g, H, W, (2 :> 2) @@ (3 :> 2))
IsP4In(g, W, H)      == Cardinality(H) = 3 /\ DegSeqIs(g, H, W, (1 :> 2) @@ (2 :> 2)) /\ Connected(g, H)
Is2K2In(g, W, H)     == Cardinality(H) = 2 /\ DegSeqIs(g, H, W, (1 :> 4))
IsCycleOn(g, W, H)   == Cardinality(H) = Cardinality(W) /\ IsCycle(g, H) /\ VertsOf(g, H) = W
\* gem = P4 + a dominating vertex; W4 = C4 + a dominating vertex
IsGemIn(g, W, H) ==
  /\ Cardinality(H) = 7
  /\ \E c \in W : /\ \A v \in W \ {c} : Adj(g, H, c, v)
                  /\ IsP4In(g, W \ {c}, InducedIn(g, H, W \ {c}))
IsW4In(g, W, H) ==
  /\ Cardinality(H) = 8
  /\ \E c \in W : /\ \A v \in W \ {c} : Adj(g, H, c, v)
                  /\ IsCycleOn(g, W \ {c}, InducedIn(g, H, W \ {c}))
IsOn(T(_, _, _), g, X) == X # {} /\ T(g, VertsOf(g, X), X)   \* X itself is a T
HasInducedCycle(g, X, Ks) ==
  \E k \in Ks \cap 3..g.n : k <= Cardinality(X) /\ HasInd(g, X, k, IsCycleOn)
IsSplit(g, X) ==                      \* a clique plus an independent set
  \E K \in SUBSET VertsOf(g, X) :
     LET k == Cardinality(K)
     IN  /\ Cardinality(InducedIn(g, X, K)) = (k * (k - 1)) \div 2
         /\ InducedIn(g, X, VertsOf(g, X) \ K) = {}
Neigh(g, X, v) == {u \in VertsOf(g, X) : u # v /\ Adj(g, X, u, v)}
IsThreshold(g, X) ==                  \* neighbourhoods are nested
  \A u, v \in VertsOf(g, X) :
     \/ Neigh(g, X, u) \ {v} \subseteq Neigh(g, X, v)
     \/ Neigh(g, X, v) \ {u} \subseteq Neigh(g, X, u)
IsChordal(g, X) == ~ HasInducedCycle(g, X, 4..g.n)
OddHoles(g) == {k \in 5..g.n : k % 2 = 1}
InClass(g, cls, X) ==
  CASE cls = "claw"     -> IsOn(IsClawIn, g, X)
    [] cls = "diamond"  -> IsOn(IsDiamondIn, g, X)
    [] cls = "gem"      -> IsOn(IsGemIn, g, X)
    [] cls = "odd_hole" -> IsCycle(g, X) /\ Cardinality(X) \in OddHoles(g)
    [] cls = "claw_free"     -> ~ HasInd(g, X, 4, IsClawIn)
    [] cls = "diamond_free"  -> ~ HasInd(g, X, 4, IsDiamondIn)
    [] cls = "gem_free"      -> ~ HasInd(g, X, 5, IsGemIn)
    [] cls = "odd_hole_free" -> ~ HasInducedCycle(g, X, OddHoles(g))
    [] cls = "chordal"  -> IsChordal(g, X)
    [] cls = "cograph"  -> ~ HasInd(g, X, 4, IsP4In)
    [] cls = "chordal_bipartite" -> IsBipartite(g, X) /\ ~ HasInducedCycle(g, X, 5..g.n)
    [] cls = "split"    -> IsSplit(g, X)
    [] cls = "block"    -> IsChordal(g, X) /\ ~ HasInd(g, X, 4, IsDiamondIn)
    [] cls = "ptolemaic" -> IsChordal(g, X) /\ ~ HasInd(g, X, 5, IsGemIn)
    [] cls = "threshold" -> IsThreshold(g, X)
    [] cls = "gridline" -> /\ ~ HasInd(g, X, 4, IsClawIn) /\ ~ HasInd(g, X, 4, IsDiamondIn)
                           /\ ~ HasInducedCycle(g, X, OddHoles(g))
    [] cls = "domino"   -> /\ ~ HasInd(g, X, 4, IsClawIn) /\ ~ HasInd(g, X, 5, IsGemIn)
                           /\ ~ HasInd(g, X, 5, IsW4In)
    [] cls = "linear_domino" -> ~ HasInd(g, X, 4, IsClawIn) /\ ~ HasInd(g, X, 4, IsDiamondIn)

----------------------------------------------------------------------------
(* Directed graphs: g.E[i] = <<u, v>> is the arc u -> v.                   *)
InDeg(g, X, v)  == Cardinality({i \in X : g.E[i][2] = v})
OutDeg(g, X, v) == Cardinality({i \in X : g.E[i][1] = v})
IsDiCycle(g, X) ==
  IsOneComp(g, X) /\ \A v \in VertsOf(g, X) : InDeg(g, X, v) = 1 /\ OutDeg(g, X, v) = 1
IsDiPath(g, X, s, t) ==
  /\ IsOneComp(g, X) /\ {s, t} \subseteq VertsOf(g, X)
  /\ \A v \in VertsOf(g, X) :
       /\ InDeg(g, X, v)  = (IF v = s THEN 0 ELSE 1)
       /\ OutDeg(g, X, v) = (IF v = t THEN 0 ELSE 1)
\* a branching: no cycle, no vertex with two parents.  If roots are given
\* each of them is the root of a nontrivial tree, and no other vertex is.
IsBranching(g, X) == Acyclic(g, X) /\ \A v \in VertsOf(g, X) : InDeg(g, X, v) <= 1
RootsOf(g, X) == {v \in VertsOf(g, X) : InDeg(g, X, v) = 0}
IsRootedForestD(g, X, roots, spanning) ==
  /\ IsBranching(g, X)
  /\ roots # {} => RootsOf(g, X) = roots
  /\ spanning => IsSpanning(g, X)
IsRootedTreeD(g, X, root, spanning) ==     \* no arc: the tree of the root alone
  /\ IsBranching(g, X) /\ RootsOf(g, X) \in {{}, {root}}
  /\ spanning => IsSpanning(g, X)

----------------------------------------------------------------------------
(* Vertex sets.  h is the (not necessarily universe) graph given as a set  *)
(* of two-element vertex sets; W ranges over subsets of the vertices N.    *)
RECURSIVE Ball(_, _, _)
Ball(h, S, k) ==                \* vertices at distance <= k from S
  IF k = 0 THEN S ELSE Ball(h, S \cup UNION {e \in h : e \cap S # {}}, k - 1)
IsIndep(h, W, k)        == \A u \in W : Ball(h, {u}, k) \cap W = {u}
IsDominating(h, N, W, k) == N \subseteq Ball(h, W, k)
IsVertexCover(h, W)     == \A e \in h : e \cap W # {}
IsVClique(h, W)         == \A u, v \in W : u # v => {u, v} \in h

----------------------------------------------------------------------------
(* Reliability: weight of the edge sets X in which all terminals T lie in  *)
(* one component of (V, X).                                                *)
TerminalsConnected(g, X, T) ==
  \E B \in Comps(g, X) : T \subseteq B
=============================================================================
