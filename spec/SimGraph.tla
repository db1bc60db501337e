------------------------------ MODULE SimGraph ------------------------------
(***************************************************************************)
(* A clustering problem is a finite set of positions 1..n and a symmetric  *)
(* relation on them, given as a set E of pairs <<i, j>> with i < j.        *)
(* Everything a clusterer may answer is defined from that graph.           *)
(***************************************************************************)
EXTENDS Base

Adj(n, E) == TLCEval([x \in 1..n |-> { y \in 1..n : <<x, y>> \in E \/ <<y, x>> \in E }])
\* built edge by edge: cheaper when n is large and E sparse
AdjSparse(n, es) ==
  FoldLeft(LAMBDA f, p : [f EXCEPT ![p[1]] = @ \cup {p[2]}, ![p[2]] = @ \cup {p[1]}],
           [x \in 1..n |-> {}], es)

RECURSIVE Grow(_, _, _)
Grow(adj, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nxt == UNION { adj[x] : x \in front } \ seen
       IN Grow(adj, seen \cup nxt, nxt)
ComponentOf(adj, x) == Grow(adj, {x}, {x})

RECURSIVE CompsFrom(_, _)
CompsFrom(adj, todo) ==
  IF todo = {} THEN {}
  ELSE LET x == CHOOSE y \in todo : TRUE
           c == ComponentOf(adj, x)
       IN {c} \cup CompsFrom(adj, todo \ c)
ComponentsA(adj) == CompsFrom(adj, DOMAIN adj)
Components(n, E) == ComponentsA(Adj(n, E))

\* named sets of <<min_size, max_size>> for the model configurations
B_one == {<<2, -1>>}
B_few == {<<2, -1>>, <<2, 3>>, <<2, 2>>}
B_all == {<<2, -1>>, <<3, -1>>, <<1, 2>>, <<2, 3>>, <<2, 2>>, <<3, 4>>}
\* max = -1 stands for "no upper bound"
InBounds(k, mn, mx) == k >= mn /\ (mx < 0 \/ k <= mx)

(* ------------------------------ connected components ------------------- *)
ComponentClusters(adj, mn, mx) == { c \in ComponentsA(adj) : InBounds(Cardinality(c), mn, mx) }

(* Observed clusters (a sequence of sequences of positions) are a correct  *)
(* connected components answer.                                            *)
ComponentsAnswer(adj, mn, mx, cl) ==
     Chk(\A k \in DOMAIN cl : IsSetSeq(cl[k]), "item_repeated_in_cluster")
  \cup Chk({ Ran(cl[k]) : k \in DOMAIN cl } = ComponentClusters(adj, mn, mx), "clusters_are_components")
  \cup Chk(Cardinality({ Ran(cl[k]) : k \in DOMAIN cl }) = Len(cl), "cluster_repeated")

(* ------------------------------ fuzzy clusters ------------------------- *)
Ball(adj, x) == {x} \cup adj[x]

\* centre first (centred = TRUE) or anywhere in the cluster
FuzzyAnswer(adj, mn, mx, cl, centred) ==
  LET n == Len(cl)
      prior(k) == UNION { Ran(cl[h]) : h \in 1..(k - 1) }
      \* the neighbours of earlier centres
      cand(k) == IF centred THEN {cl[k][1]} ELSE Ran(cl[k])
  IN Chk(\A k \in 1..n : IsSetSeq(cl[k]), "item_repeated_in_cluster")
     \cup Chk(\A k \in 1..n : InBounds(Len(cl[k]), mn, mx), "size_bounds")
     \cup Chk(\A k \in 1..n : \E c \in cand(k) : Ran(cl[k]) = Ball(adj, c), "cluster_is_a_ball")
     \cup Chk(\A k \in 1..n : \E c \in cand(k) \ prior(k) : Ran(cl[k]) = Ball(adj, c), "centre_already_clustered")
     \cup Chk(\A x \in DOMAIN adj : (adj[x] # {} \/ ~centred) /\ InBounds(Cardinality(Ball(adj, x)), mn, mx)
                  => \E k \in 1..n : x \in Ran(cl[k]), "item_not_covered")

(* ------------------------------ leader --------------------------------- *)
\* deterministic scan: the leader takes every later free similar item; a cluster
\* that would exceed the maximum is dropped and its followers stay free
LeaderStep(adj, n, mn, mx, st, i) ==      \* st = <<taken, clusters>>
  IF i \in st[1] THEN st
  ELSE LET f == { j \in adj[i] : j > i /\ j \notin st[1] }
           c == {i} \cup f
       IN IF f = {} \/ (mx >= 0 /\ Cardinality(c) > mx) THEN st
          ELSE <<st[1] \cup f, IF Cardinality(c) >= mn THEN st[2] \cup {<<i, c>>} ELSE st[2]>>
LeaderClusters(adj, mn, mx) ==
  LET n == Cardinality(DOMAIN adj)
  IN FoldLeft(LAMBDA st, i : LeaderStep(adj, n, mn, mx, st, i), <<{}, {}>>, Iota(n))[2]
LeaderAnswer(adj, mn, mx, cl) ==
     Chk(\A k \in DOMAIN cl : IsSetSeq(cl[k]), "item_repeated_in_cluster")
  \cup Chk(\A k \in DOMAIN cl : Ran(cl[k]) \subseteq Ball(adj, cl[k][1]), "radius_around_leader")
  \cup Chk(\A k, h \in DOMAIN cl : k < h => Ran(cl[k]) \cap Ran(cl[h]) = {}, "clusters_overlap")
  \cup Chk(\A k \in DOMAIN cl : InBounds(Len(cl[k]), mn, mx), "size_bounds")
  \cup Chk({ <<cl[k][1], Ran(cl[k])>> : k \in DOMAIN cl } = LeaderClusters(adj, mn, mx), "leader_scan")

ModeAnswer(mode, adj, mn, mx, cl) ==
  CASE mode = "connected_components" -> ComponentsAnswer(adj, mn, mx, cl)
    [] mode = "fuzzy_clusters" -> FuzzyAnswer(adj, mn, mx, cl, TRUE)
    [] mode = "leader" -> LeaderAnswer(adj, mn, mx, cl)
    [] OTHER -> {"unknown_mode"}
=============================================================================
