------------------------------ MODULE Frontier ------------------------------
(***************************************************************************)
(* The constructors of Graphs.tla as automata: a constructor is specified  *)
(* by a machine that reads a subgraph edge by edge, in universe order, and *)
(* accepts it iff it belongs to the constructor's result.  The machine     *)
(* remembers, for the vertices that still have an edge to come, their      *)
(* degrees and how they are joined, and about the finished components only *)
(* what the constructor asks of them.                                      *)
(*                                                                         *)
(* x.op is the constructor, x.g the graph [n, E] with its edges in         *)
(* universe order, the other fields of x its arguments.  pre is Prepare(x).*)
(* A state is <<deg, blk, c, ext>>; <<>> is the rejecting state.           *)
(*   deg  set of <<v, a, b>>: degree a (directed: a out, b in)             *)
(*   blk  set of <<{<<v, colour>>}, t>>: the component of the active       *)
(*        vertices v; t = [ne: has an edge, gs: number of vertices of each      *)
(*        group, w: total vertex weight]                                   *)
(*   c    what is known of the finished part                               *)
(*   ext  pairs of vertices that must not be joined (partitions), or must  *)
(*        not both be used (induced subgraphs)                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

FR(q) == {q[i] : i \in 1..Len(q)}
Pairs(n, pairs, d) ==
  TLCEval([i \in 1..n |-> LET S == {j \in 1..Len(pairs) : pairs[j][1] = i}
                          IN  IF S = {} THEN d ELSE pairs[Max(S)][2]])

GroupsOf(x) ==
  CASE x.op = "graphs" -> SelectSeq([i \in 1..Len(x.vg) |-> FR(x.vg[i])], LAMBDA q : q # {})
    [] x.op \in {"connected_components", "steiner_subgraphs", "steiner_trees", "forests"} ->
         IF x.vs = <<>> THEN <<>> ELSE <<FR(x.vs)>>
    [] x.op = "trees" -> IF x.root = 0 THEN <<>> ELSE <<{x.root}>>
    [] OTHER -> <<>>
\* -1: any number of components without a vertex of a group
FreeOf(x) ==
  CASE x.op = "graphs" -> IF x.vg = <<>> THEN -1 ELSE Cardinality({i \in 1..Len(x.vg) : x.vg[i] = <<>>})
    [] x.op \in {"connected_components", "steiner_subgraphs", "steiner_trees"} -> IF x.vs = <<>> THEN 1 ELSE 0
    [] OTHER -> -1
Weights(x) == CASE x.op \in {"balanced_partitions", "weighted_induced_graphs"} -> Pairs(x.g.n, x.w, 1)
                [] OTHER -> [v \in 1..x.g.n |-> 0]
RECURSIVE FBall(_, _, _)
FBall(h, S, k) == IF k = 0 THEN S ELSE FBall(h, S \cup UNION {q \in h : q \cap S # {}}, k - 1)
VertexKinds == {"independent_sets", "dominating_sets", "vertex_covers", "vcliques"}
DiKinds == {"directed_cycles", "directed_hamiltonian_cycles", "directed_st_paths",
            "rooted_forests", "rooted_trees", "digraphs"}
OneKinds == {"steiner_cycles", "steiner_paths", "cycles", "paths", "letter_P_graphs", "directed_cycles",
             "directed_hamiltonian_cycles", "directed_st_paths", "induced_graphs", "weighted_induced_graphs",
             "trees", "cliques", "bicliques", "rooted_trees"}
\* degrees above this are not told apart, or not allowed: <<allowed, most>>
DegMost(x, v) ==
  CASE x.op = "graphs" -> LET d == Pairs(x.g.n, x.dc, <<-1>>)[v]
                          IN  IF d = <<-1>> THEN <<TRUE, 0>> ELSE <<FALSE, Max(FR(d) \cup {0})>>
    [] x.op \in {"connected_components", "steiner_subgraphs", "steiner_trees", "bipartite_graphs",
                 "partitions", "balanced_partitions"} -> <<TRUE, 0>>
    [] x.op \in {"trees", "forests", "induced_graphs", "weighted_induced_graphs"} -> <<TRUE, 1>>
    [] x.op \in {"cycles", "steiner_cycles", "steiner_paths", "paths"} -> <<FALSE, 2>>
    [] x.op \in {"matchings", "perfect_matchings"} -> <<FALSE, 1>>
    [] x.op \in {"k_matchings", "k_factors", "bicliques"} -> <<FALSE, x.k>>
    [] x.op = "cliques" -> <<FALSE, x.k - 1>>
    [] x.op \in {"b_matchings", "f_factors"} -> <<FALSE, Pairs(x.g.n, x.b, 0)[v]>>
    [] x.op \in {"regular_graphs", "regular_bipartite_graphs"} -> <<FALSE, x.hi>>
    [] x.op = "degree_distribution_graphs" -> <<FALSE, Len(x.dd) - 1>>
    [] x.op = "letter_P_graphs" -> <<FALSE, 3>>
    [] x.op \in {"directed_cycles", "directed_hamiltonian_cycles", "directed_st_paths"} -> <<FALSE, 1>>
    [] x.op \in {"rooted_forests", "rooted_trees"} -> <<TRUE, 1>>
    [] OTHER -> <<FALSE, 999>>
\* what is still to come after edge p: edges at its two ends, vertices that
\* are not finished, and the least and greatest sum of the weights
EdgesLeft(g) ==
  LET inc == TLCEval([v \in 1..g.n |-> {q \in 1..Len(g.E) : v \in {g.E[q][1], g.E[q][2]}}])
      num(v, p) == Cardinality({q \in inc[v] : q > p})
  IN  [p \in 1..Len(g.E) |-> <<num(g.E[p][1], p), num(g.E[p][2], p)>>]
VertsLeft(g) ==
  LET last == TLCEval([v \in 1..g.n |-> Max({0} \cup {q \in 1..Len(g.E) : v \in {g.E[q][1], g.E[q][2]}})])
  IN  [p \in 1..Len(g.E) |-> Cardinality({v \in 1..g.n : last[v] > p})]
RECURSIVE WeightLeft(_)
WeightLeft(w) ==                              \* <<<<least, greatest>>, ...>>
  IF w = <<>> THEN <<>>
  ELSE IF Len(w) = 1 THEN <<<<0, 0>>>>
  ELSE LET t == WeightLeft(Tail(w))
           h == w[2]
       IN  <<<<t[1][1] + (IF h < 0 THEN h ELSE 0), t[1][2] + (IF h > 0 THEN h ELSE 0)>>>> \o t
Prepare(x) ==
  IF x.op \in VertexKinds
  THEN LET h == {FR(x.h[i]) : i \in 1..Len(x.h)}
       IN  TLCEval([near |-> [v \in 1..x.n |-> FBall(h, {v}, x.k)],
                    adj  |-> [v \in 1..x.n |-> FBall(h, {v}, 1) \ {v}]])
  ELSE TLCEval([last |-> [v \in 1..x.g.n |-> Max({0} \cup {p \in 1..Len(x.g.E) : v \in FR(x.g.E[p])})],
                gs |-> GroupsOf(x), nc |-> FreeOf(x), w |-> Weights(x),
                b |-> CASE x.op \in {"b_matchings", "f_factors"} -> Pairs(x.g.n, x.b, 0) [] OTHER -> <<>>,
                dc |-> CASE x.op = "graphs" -> Pairs(x.g.n, x.dc, <<-1>>) [] OTHER -> <<>>,
                ic |-> CASE x.op = "digraphs" -> Pairs(x.g.n, x.ic, <<-1>>) [] OTHER -> <<>>,
                oc |-> CASE x.op = "digraphs" -> Pairs(x.g.n, x.oc, <<-1>>) [] OTHER -> <<>>,
                nocy |-> CASE x.op = "graphs" -> x.nl
                           [] OTHER -> x.op \in {"steiner_trees", "steiner_paths", "trees", "forests", "paths",
                                                 "rooted_forests", "rooted_trees", "directed_st_paths"},
                one |-> \/ x.op \in OneKinds
                        \/ x.op \in {"regular_graphs", "regular_bipartite_graphs", "bipartite_graphs",
                                    "degree_distribution_graphs"} /\ x.co,
                \* does it matter how the edges are joined?
                conn |-> ~ (\/ x.op \in {"matchings", "perfect_matchings", "k_matchings", "b_matchings",
                                         "k_factors", "f_factors", "digraphs"}
                            \/ x.op \in {"regular_graphs", "degree_distribution_graphs"} /\ ~ x.co
                            \/ x.op = "graphs" /\ x.vg = <<>> /\ ~ x.nl),
                most |-> [v \in 1..x.g.n |-> DegMost(x, v)],
                rest |-> IF x.op = "to_ev" THEN <<>> ELSE EdgesLeft(x.g),
                left |-> IF x.op = "to_ev" THEN <<>> ELSE VertsLeft(x.g),
                lim |-> CASE x.op = "graphs" -> [i \in 1..Len(x.lc) |-> WeightLeft(x.lc[i][1])] [] OTHER -> <<>>,
                bip |-> x.op \in {"bipartite_graphs", "regular_bipartite_graphs", "bicliques"}])

\* may vertex v end with degree a (out-degree a, in-degree b)?
DegOk(x, pre, v, a, b) ==
  CASE x.op = "graphs" -> pre.dc[v] = <<-1>> \/ a \in FR(pre.dc[v])
    [] x.op \in {"cycles"} -> a = 2 \/ (a = 0 /\ ~ x.sp)
    [] x.op = "steiner_cycles" -> a = 2 \/ (a = 0 /\ v \notin FR(x.vs))
    [] x.op = "steiner_paths" -> a <= 2 /\ (a > 0 \/ v \notin FR(x.vs))
    [] x.op = "paths" -> IF v \in FR(x.vs) THEN a = 1 ELSE a <= 2 /\ (a > 0 \/ ~ x.sp)
    [] x.op = "trees" -> a > 0 \/ ~ x.sp
    [] x.op = "forests" -> a > 0 \/ ~ x.sp \/ v \in FR(x.vs)
    [] x.op = "matchings" -> a <= 1
    [] x.op = "perfect_matchings" -> a = 1
    [] x.op = "k_matchings" -> a <= x.k
    [] x.op = "k_factors" -> a = x.k
    [] x.op = "b_matchings" -> a <= pre.b[v]
    [] x.op = "f_factors" -> a = pre.b[v]
    [] x.op = "cliques" -> a \in {0, x.k - 1}
    [] x.op = "bicliques" -> a \in {0, x.k}
    [] x.op \in {"regular_graphs", "regular_bipartite_graphs"} -> a = 0 \/ (x.lo <= a /\ a <= x.hi)
    [] x.op = "degree_distribution_graphs" -> a < Len(x.dd)
    [] x.op = "letter_P_graphs" -> a <= 3
    [] x.op = "directed_cycles" -> <<a, b>> \in {<<0, 0>>, <<1, 1>>}
    [] x.op = "directed_hamiltonian_cycles" -> <<a, b>> = <<1, 1>>
    [] x.op = "directed_st_paths" ->
         IF v = x.s THEN <<a, b>> = <<1, 0>> ELSE IF v = x.e THEN <<a, b>> = <<0, 1>>
         ELSE <<a, b>> = <<1, 1>> \/ (<<a, b>> = <<0, 0>> /\ ~ x.sp)
    [] x.op = "rooted_forests" ->
         /\ b <= 1 /\ (x.sp => a + b > 0)
         /\ x.vs # <<>> => (a > 0 /\ b = 0) = (v \in FR(x.vs))
    [] x.op = "rooted_trees" ->
         b <= 1 /\ (a > 0 /\ b = 0 => v = x.root) /\ (x.sp => a + b > 0)
    [] x.op = "digraphs" ->
         (pre.ic[v] = <<-1>> \/ b \in FR(pre.ic[v])) /\ (pre.oc[v] = <<-1>> \/ a \in FR(pre.oc[v]))
    [] OTHER -> TRUE

\* cp: components with an edge (up to 2), fr: those without a vertex of a
\* group, ne: edges, ln: linear sums, k: the common degree, nv: used vertices,
\* dd: vertices of each degree, pt: components including single vertices,
\* mn, mx: their lightest and heaviest weight
C0(x) == [cp |-> 0, fr |-> 0, ne |-> 0,
          ln |-> CASE x.op = "graphs" -> [i \in 1..Len(x.lc) |-> 0] [] OTHER -> <<>>,
          k |-> 0, nv |-> 0,
          dd |-> CASE x.op = "degree_distribution_graphs" -> [i \in 1..Len(x.dd) |-> 0]
                   [] x.op = "letter_P_graphs" -> [i \in 1..4 |-> 0] [] OTHER -> <<>>,
          pt |-> 0, mn |-> -1, mx |-> -1]
Lesser(a, b) == IF a < b THEN a ELSE b
Larger(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* a component with totals t is complete; <<>> if it is not allowed, <<c>> else
CompDone(x, pre, c, t) ==
  LET tot == SumSeq(t.gs)
      whole == Cardinality({i \in 1..Len(t.gs) : t.gs[i] > 0}) = 1
               /\ \A i \in 1..Len(t.gs) : t.gs[i] \in {0, Cardinality(pre.gs[i])}
      single == t.ne = 0
      ok == CASE x.op = "forests" -> single \/ tot = 1
              [] x.op = "trees" -> single \/ x.root = 0 \/ tot = 1
              [] pre.gs = <<>> -> TRUE
              [] tot = 0 -> TRUE
              [] OTHER -> whole
      weighed == CASE x.op = "balanced_partitions" -> x.lo <= t.w /\ t.w <= x.hi
                   [] x.op = "weighted_induced_graphs" -> single \/ (x.lo <= t.w /\ t.w <= x.hi)
                   [] OTHER -> TRUE
      c1 == IF single THEN c
            ELSE [c EXCEPT !.cp = IF pre.one THEN @ + 1 ELSE 0,
                           !.fr = IF pre.nc >= 0 /\ tot = 0 THEN Lesser(pre.nc + 1, @ + 1) ELSE @]
      c2 == CASE x.op = "partitions" -> [c1 EXCEPT !.pt = Lesser(x.hi + 1, @ + 1)]
              [] x.op = "balanced_partitions" ->
                   [c1 EXCEPT !.pt = IF x.nc = -1 THEN 0 ELSE Lesser(x.nc + 1, @ + 1),
                              !.mn = IF x.num = 0 THEN @ ELSE IF @ = -1 THEN t.w ELSE Lesser(@, t.w),
                              !.mx = IF x.num = 0 THEN @ ELSE Larger(@, t.w)]
              [] OTHER -> c1
  IN  IF ok /\ weighed /\ c1.cp <= 1 THEN <<c2>> ELSE <<>>

----------------------------------------------------------------------------
DegIn(st, v) == CHOOSE q \in st[1] : q[1] = v
Blk(st, v) == CHOOSE q \in st[2] : \E y \in q[1] : y[1] = v
Activate(x, pre, st, v) ==
  IF \E q \in st[1] : q[1] = v THEN st
  ELSE <<st[1] \cup {<<v, 0, 0>>},
         st[2] \cup {<<{<<v, 0>>},
                       [ne |-> 0, w |-> pre.w[v],
                        gs |-> [i \in 1..Len(pre.gs) |-> IF v \in pre.gs[i] THEN 1 ELSE 0]]>>},
         st[3], st[4]>>
\* colours are only kept for bipartite families; the least vertex has 0
Tint(pre, S) ==
  IF ~ pre.bip THEN S
  ELSE LET m == CHOOSE y \in S : \A z \in S : y[1] <= z[1]
       IN  IF m[2] = 0 THEN S ELSE {<<y[1], 1 - y[2]>> : y \in S}
Rep(st, v) == Min({y[1] : y \in Blk(st, v)[1]})

PartKinds == {"partitions", "balanced_partitions"}
IndKinds == {"induced_graphs", "weighted_induced_graphs"}

\* edge p = {u, v} is in the subgraph
Take(x, pre, st, p, u, v) ==
  LET Bu == Blk(st, u)
      Bv == Blk(st, v)
      cu == (CHOOSE y \in Bu[1] : y[1] = u)[2]
      cv == (CHOOSE y \in Bv[1] : y[1] = v)[2]
      same == pre.conn /\ Bu = Bv
      du == DegIn(st, u)
      dv == DegIn(st, v)
      di == x.op \in DiKinds
      In1 == IF x.op \in {"rooted_forests", "rooted_trees"} THEN 2 ELSE 99   \* in-degrees told apart
      Up(w, d) == IF pre.most[w][1] THEN Lesser(d, pre.most[w][2]) ELSE d
      nu == <<u, Up(u, du[2] + 1), du[3]>>
      nv == IF di THEN <<v, dv[2], Lesser(In1, dv[3] + 1)>> ELSE <<v, Up(v, dv[2] + 1), dv[3]>>
      deg == (st[1] \ {du, dv}) \cup {nu, nv}
      over == \/ ~ pre.most[u][1] /\ nu[2] > pre.most[u][2]
              \/ ~ pre.most[v][1] /\ nv[2] > pre.most[v][2]
              \/ nv[3] > 1 /\ x.op \in {"rooted_forests", "rooted_trees"}
              \/ pre.one /\ st[3].cp > 0
      B == IF same THEN <<Bu[1], [Bu[2] EXCEPT !.ne = 1]>>
           ELSE <<Tint(pre, Bu[1] \cup (IF pre.bip /\ cu = cv THEN {<<y[1], 1 - y[2]>> : y \in Bv[1]} ELSE Bv[1])),
                  [ne |-> 1, w |-> Bu[2].w + Bv[2].w,
                   gs |-> [i \in 1..Len(pre.gs) |-> Bu[2].gs[i] + Bv[2].gs[i]]]>>
      c == [st[3] EXCEPT
              !.ne = CASE x.op = "graphs" -> IF x.ne = <<>> THEN 0 ELSE @ + 1
                       [] x.op \in {"regular_graphs", "regular_bipartite_graphs"} -> 1
                       [] OTHER -> 0,
              !.ln = IF @ = <<>> THEN @ ELSE [i \in 1..Len(@) |-> @[i] + x.lc[i][1][p]]]
      blk == IF pre.conn THEN (st[2] \ {Bu, Bv}) \cup {B} ELSE st[2]
      \* a component never loses the groups it has (CompDone would refuse it)
      mixed == IF x.op \in {"forests", "trees"} THEN SumSeq(B[2].gs) > 1
               ELSE Cardinality({i \in 1..Len(B[2].gs) : B[2].gs[i] > 0}) > 1
  IN  IF over \/ mixed \/ (same /\ pre.nocy) \/ (same /\ pre.bip /\ cu = cv) THEN <<>>
      ELSE IF x.op \in PartKinds
      THEN IF {Rep(st, u), Rep(st, v)} \in st[4] THEN <<>>
           ELSE LET s1 == <<deg, blk, c, st[4]>>
                IN  <<deg, blk, c, {{Rep(s1, y) : y \in q} : q \in st[4]}>>
      ELSE IF x.op \in IndKinds        \* ext: {v} is out; {v, w} not both
      THEN IF {u} \in st[4] \/ {v} \in st[4] THEN <<>>
           ELSE LET hit == {q \in st[4] : Cardinality(q) = 2 /\ q \cap {u, v} # {}}
                    out == {q \ {u, v} : q \in hit}
                IN  IF {} \in out THEN <<>>
                    ELSE <<deg, blk, c, (st[4] \ hit) \cup out>>
      ELSE <<deg, blk, c, {}>>

Leave(x, pre, st, p, u, v) ==
  IF x.op \in PartKinds
  THEN LET q == {Rep(st, u), Rep(st, v)}
       IN  IF Cardinality(q) = 1 THEN <<>> ELSE <<st[1], st[2], st[3], st[4] \cup {q}>>
  ELSE IF x.op \in IndKinds
  THEN LET iu == DegIn(st, u)[2] > 0
           iv == DegIn(st, v)[2] > 0
       IN  IF iu /\ iv THEN <<>>
           ELSE <<st[1], st[2], st[3],
                  st[4] \cup {IF iu THEN {v} ELSE IF iv THEN {u} ELSE {u, v}}>>
  ELSE st

\* vertex v has no further edge
Finish(x, pre, st, v) ==
  IF st = <<>> THEN <<>>
  ELSE
  LET d == DegIn(st, v)
      a == d[2]
      B == Blk(st, v)
      rest == {y \in B[1] : y[1] # v}
      c1 == [st[3] EXCEPT
               !.k = IF x.op \in {"regular_graphs", "regular_bipartite_graphs"} /\ a > 0 THEN a ELSE @,
               !.nv = IF x.op \in {"cliques", "bicliques"} /\ a > 0 THEN Lesser(2 * x.k + 1, @ + 1) ELSE @,
               !.dd = CASE x.op = "degree_distribution_graphs" /\ a < Len(@) ->
                             [@ EXCEPT ![a + 1] = IF x.dd[a + 1] = -1 THEN 0 ELSE Lesser(x.dd[a + 1] + 1, @ + 1)]
                        [] x.op = "letter_P_graphs" /\ a \in {1, 3} -> [@ EXCEPT ![a + 1] = Lesser(2, @ + 1)]
                        [] OTHER -> @]
      done == IF rest = {} THEN CompDone(x, pre, c1, B[2]) ELSE <<c1>>
      blk == IF rest = {} THEN st[2] \ {B} ELSE (st[2] \ {B}) \cup {<<Tint(pre, rest), B[2]>>}
      deg == st[1] \ {d}
      ext == IF x.op \in PartKinds
             THEN IF rest = {} THEN {q \in st[4] : v \notin q}
                  ELSE LET m == Min({y[1] : y \in rest})
                       IN  {IF v \in q THEN (q \ {v}) \cup {m} ELSE q : q \in st[4]}
             ELSE {q \in st[4] : v \notin q}
  IN  IF \/ ~ DegOk(x, pre, v, a, d[3])
         \/ st[3].k > 0 /\ a > 0 /\ a # st[3].k
         \/ done = <<>>
      THEN <<>>
      ELSE <<deg, blk, done[1], ext>>

\* can a state after edge p still lead to acceptance?  (Only an early answer
\* to what DegOk and GAccept decide at the end.)
RECURSIVE Missing(_, _)
Missing(want, have) ==
  IF want = <<>> THEN 0
  ELSE (IF want[1] > have[1] THEN want[1] - have[1] ELSE 0) + Missing(Tail(want), Tail(have))
DegHope(x, pre, st, v, rest) ==
  \/ rest = 0 \/ pre.most[v][1]
  \/ LET d == DegIn(st, v)
     IN  CASE x.op = "digraphs" ->
                /\ pre.oc[v] = <<-1>> \/ \E k \in FR(pre.oc[v]) : d[2] <= k /\ k <= d[2] + rest
                /\ pre.ic[v] = <<-1>> \/ \E k \in FR(pre.ic[v]) : d[3] <= k /\ k <= d[3] + rest
           [] x.op \in DiKinds -> TRUE
           [] OTHER -> \E k \in d[2]..(d[2] + rest) : DegOk(x, pre, v, k, 0)
Hope(x, pre, st, p) ==
  LET c == st[3]
      el == Len(x.g.E) - p
      nb == pre.left[p] + Cardinality(st[2])
  IN  /\ DegHope(x, pre, st, x.g.E[p][1], pre.rest[p][1])
      /\ DegHope(x, pre, st, x.g.E[p][2], pre.rest[p][2])
      /\ CASE x.op = "graphs" ->
                /\ x.ne = <<>> \/ \E k \in FR(x.ne[1]) : c.ne <= k /\ k <= c.ne + el
                /\ pre.nc = -1 \/ (c.fr <= pre.nc /\ c.fr + nb >= pre.nc)
                /\ \A i \in 1..Len(x.lc) : /\ x.lc[i][2] <= c.ln[i] + pre.lim[i][p][2]
                                           /\ c.ln[i] + pre.lim[i][p][1] <= x.lc[i][3]
           [] x.op = "degree_distribution_graphs" ->
                /\ \A i \in 1..Len(x.dd) : x.dd[i] = -1 \/ c.dd[i] <= x.dd[i]
                /\ Missing(x.dd, c.dd) <= pre.left[p]
                /\ (\A i \in 1..Len(x.dd) : x.dd[i] # -1) => Missing(x.dd, c.dd) = pre.left[p]
           [] x.op = "partitions" -> c.pt <= x.hi /\ c.pt + nb >= x.lo
           [] x.op = "balanced_partitions" -> x.nc = -1 \/ (c.pt <= x.nc /\ c.pt + nb >= x.nc)
           [] OTHER -> TRUE

GStart(x, pre) == IF x.op \in VertexKinds THEN << {}, {} >> ELSE << {}, {}, C0(x), {} >>

GStep(x, pre, st, p, b) ==
  IF st = <<>> THEN <<>>
  ELSE IF x.op \in VertexKinds
  THEN LET later == {v \in 1..x.n : v > p}
       IN
       CASE x.op = "independent_sets" ->            \* later vertices that must stay out
              IF b = 1 /\ p \in st[1] THEN <<>>
              ELSE << (st[1] \cup (IF b = 1 THEN pre.near[p] ELSE {})) \cap later, {} >>
         [] x.op = "vertex_covers" ->               \* later vertices that must come in
              IF b = 0 /\ p \in st[1] THEN <<>>
              ELSE << (st[1] \cup (IF b = 0 THEN pre.adj[p] ELSE {})) \cap later, {} >>
         [] x.op = "vcliques" ->                    \* later vertices that must stay out
              IF b = 1 /\ p \in st[1] THEN <<>>
              ELSE << (st[1] \cup (IF b = 1 THEN later \ pre.adj[p] ELSE {})) \cap later, {} >>
         [] x.op = "dominating_sets" ->             \* later ones dominated; sets that need a member
              LET dom == IF b = 1 THEN pre.near[p] ELSE {}
                  old == IF b = 1 THEN {q \in st[2] : p \notin q} ELSE {q \ {p} : q \in st[2]}
                  need == old \cup (IF b = 1 \/ p \in st[1] THEN {} ELSE {pre.near[p] \cap later})
              IN  IF {} \in need THEN <<>>
                  ELSE << (st[1] \cup dom) \cap later,
                          {q \in need : ~ \E z \in need : z # q /\ z \subseteq q} >>
  ELSE
  LET u == x.g.E[p][1]
      v == x.g.E[p][2]
      s1 == TLCEval(Activate(x, pre, Activate(x, pre, st, u), v))
      s2 == TLCEval(IF b = 1 THEN Take(x, pre, s1, p, u, v) ELSE Leave(x, pre, s1, p, u, v))
      s3 == TLCEval(IF pre.last[u] = p THEN Finish(x, pre, s2, u) ELSE s2)
      s4 == TLCEval(IF pre.last[v] = p THEN Finish(x, pre, s3, v) ELSE s3)
  IN  IF s4 = <<>> \/ ~ Hope(x, pre, s4, p) THEN <<>> ELSE s4

GAccept(x, pre, st) ==
  IF st = <<>> THEN FALSE
  ELSE IF x.op \in VertexKinds THEN st[2] = {}
  ELSE
  LET c == st[3]
  IN
  CASE x.op = "graphs" ->
         /\ pre.nc = -1 \/ c.fr = pre.nc
         /\ x.ne = <<>> \/ c.ne \in FR(x.ne[1])
         /\ \A i \in 1..Len(x.lc) : x.lc[i][2] <= c.ln[i] /\ c.ln[i] <= x.lc[i][3]
    [] x.op \in {"connected_components", "steiner_subgraphs", "steiner_trees"} -> c.fr = pre.nc
    [] x.op \in {"steiner_cycles", "steiner_paths", "cycles", "paths", "letter_P_graphs",
                 "directed_cycles", "directed_hamiltonian_cycles", "directed_st_paths",
                 "induced_graphs", "weighted_induced_graphs"} ->
         c.cp = 1 /\ (x.op = "letter_P_graphs" => c.dd[2] = 1 /\ c.dd[4] = 1)
    [] x.op = "trees" -> c.cp = 1 \/ (c.cp = 0 /\ x.root # 0)
    [] x.op = "cliques" -> c.cp = 1 /\ c.nv = x.k
    [] x.op = "bicliques" -> c.cp = 1 /\ c.nv = 2 * x.k
    [] x.op \in {"regular_graphs", "regular_bipartite_graphs"} -> c.k > 0 /\ (x.co => c.cp = 1)
    [] x.op = "bipartite_graphs" -> x.co => c.cp <= 1
    [] x.op = "degree_distribution_graphs" ->
         /\ \A i \in 1..Len(x.dd) : x.dd[i] = -1 \/ c.dd[i] = x.dd[i]
         /\ x.co => c.cp = 1
    [] x.op = "partitions" -> x.lo <= c.pt /\ c.pt <= x.hi
    [] x.op = "balanced_partitions" ->
         /\ x.nc = -1 \/ c.pt = x.nc
         /\ x.num = 0 \/ x.den * c.mx <= x.num * c.mn
    [] x.op = "rooted_trees" -> c.cp <= 1
    [] OTHER -> TRUE
=============================================================================
