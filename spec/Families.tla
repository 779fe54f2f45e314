------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The algebra of families of sets that Graphillion implements: what every *)
(* operation of setset / GraphSet / VertexSetSet / EdgeVertexSetSet /      *)
(* DiGraphSet has to return, stated directly on sets of sets.              *)
(*                                                                         *)
(* An element of the universe is the positive integer that is its position *)
(* in the universe as the user gave it; a "set" (a graph, a vertex set) is *)
(* a set of such integers; a family is a set of those sets.  U is always   *)
(* the set of all element numbers.  Nothing here mentions decision         *)
(* diagrams: this module is the meaning, not the algorithm.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Families(U) == SUBSET SUBSET U

----------------------------------------------------------------------------
(* Boolean algebra *)
FUnion(F, G) == F \cup G
FInter(F, G) == F \cap G
FDiff(F, G)  == F \ G
FSym(F, G)   == (F \ G) \cup (G \ F)
FInvert(U, F) == (SUBSET U) \ F                   \* ~gs

RECURSIVE FoldFam(_, _, _)
FoldFam(Op(_, _), F, seq) ==                      \* the *args forms
  IF seq = <<>> THEN F ELSE FoldFam(Op, Op(F, Head(seq)), Tail(seq))

----------------------------------------------------------------------------
(* Derived families *)
\* {a \cup b} and {a \cap b}   (Knuth 7.1.4, ex. 203)
FJoin(F, G) == {a \cup b : a \in F, b \in G}
FMeet(F, G) == {a \cap b : a \in F, b \in G}

\* G # {}.  {a : for all b in G : a and b disjoint, a \cup b in F}  (ex. 204)
FQuotient(F, G) ==
  LET c == {a \ b : a \in F, b \in G}
  IN  {a \in c : \A b \in G : a \cap b = {} /\ (a \cup b) \in F}
FRemainder(F, G) == F \ FJoin(FQuotient(F, G), G)

FSubsets(F, G)      == {a \in F : \E b \in G : a \subseteq b}
FSupersets(F, G)    == {a \in F : \E b \in G : b \subseteq a}
FNonSubsets(F, G)   == {a \in F : \A b \in G : ~(a \subseteq b)}
FNonSupersets(F, G) == {a \in F : \A b \in G : ~(b \subseteq a)}
FWith(F, e)         == {a \in F : e \in a}
FWithout(F, e)      == {a \in F : e \notin a}

FMinimal(F) == {a \in F : ~ \E b \in F : b \subseteq a /\ b # a}
FMaximal(F) == {a \in F : ~ \E b \in F : a \subseteq b /\ b # a}
FHitting(U, F) == {a \in SUBSET U : \A b \in F : a \cap b # {}}

FFlip(F, e)    == {IF e \in a THEN a \ {e} ELSE a \cup {e} : a \in F}
FFlipAll(U, F) == {U \ a : a \in F}               \* gs.complement()

FSmaller(F, k) == {a \in F : Cardinality(a) < k}
FLarger(F, k)  == {a \in F : Cardinality(a) > k}
FSize(F, k)    == {a \in F : Cardinality(a) = k}

(* element-wise mutators *)
FGraft(F, e) == {a \cup {e} : a \in F}            \* gs.add(element)
FErase(F, e) == {a \ {e} : a \in F}               \* gs.remove(element)

(* reconfiguration moves *)
FRemoveSome(F) == UNION {{a \ {e} : e \in a} : a \in F}
FAddSome(U, F) == UNION {{a \cup {e} : e \in U \ a} : a \in F}
FRemoveAddSome(U, F) ==
  UNION {UNION {{(a \ {e}) \cup {d} : d \in U \ a} : e \in a} : a \in F}

(* constraints {'include': .., 'exclude': ..} *)
FConstrained(U, inc, exc) == {inc \cup s : s \in SUBSET (U \ (inc \cup exc))}

----------------------------------------------------------------------------
(* Weights, costs, probabilities.  w, p: sequences indexed by element.     *)
Weight(w, a) == FoldSet(LAMBDA e, t : t + w[e], 0, a)

(* Costs are 32-bit and their totals are wider than TLC's integers, so a    *)
(* cost is a pair <<hi, lo>> that stands for hi * 2^16 + lo, 0 <= lo < 2^16.*)
Norm(hi, lo) == <<hi + (lo \div 65536), lo % 65536>>
BigLe(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
BigCost(w, a) == Norm(FoldSet(LAMBDA e, t : t + w[e][1], 0, a),
                      FoldSet(LAMBDA e, t : t + w[e][2], 0, a))
FCostLe(F, w, b) == {a \in F : BigLe(BigCost(w, a), b)}
FCostGe(F, w, b) == {a \in F : BigLe(b, BigCost(w, a))}
FCostEq(F, w, b) == {a \in F : BigCost(w, a) = b}

\* Probability that the random subset of U in which e appears with
\* probability p[e]/d is a member of F, as the integer numerator over
\* d^|U|.
PNum(U, p, d, a) ==
  FoldSet(LAMBDA e, t : t * (IF e \in a THEN p[e] ELSE d - p[e]), 1, U)
FProbNum(U, F, p, d) == FoldSet(LAMBDA a, t : t + PNum(U, p, d, a), 0, F)

----------------------------------------------------------------------------
(* Iteration results.  A sequence of sets is a complete enumeration of F  *)
(* when every member appears exactly once and nothing else does.          *)
Rng(s) == {s[i] : i \in 1..Len(s)}
Enumerates(s, F) == Len(s) = Cardinality(F) /\ Rng(s) = F
NonDecreasing(s, w) ==
  \A i \in 1..(Len(s) - 1) : Weight(w, s[i]) <= Weight(w, s[i + 1])
NonIncreasing(s, w) ==
  \A i \in 1..(Len(s) - 1) : Weight(w, s[i]) >= Weight(w, s[i + 1])

----------------------------------------------------------------------------
(* Comparisons *)
FDisjoint(F, G) == F \cap G = {}
FLe(F, G) == F \subseteq G
FLt(F, G) == F \subseteq G /\ F # G
=============================================================================
