----------------------------- MODULE Bipartite -----------------------------
(***************************************************************************)
(* Monopartite projections, connected components of filtered graphs, the   *)
(* floatsam threshold search, and key joins.                               *)
(***************************************************************************)
EXTENDS SimGraph, Numeric

(* a bipartite graph: edges <<node, other, weight>>; nodes 1..n are projected *)
Vec(es, u) == LET own == { es[h] : h \in { h \in DOMAIN es : es[h][1] = u } }
              IN TLCEval([t \in { p[2] : p \in own } |-> (CHOOSE p \in own : p[2] = t)[3]])
\* what links u and v: sign and square for the cosines, plain value otherwise
Link(metric, f, g) ==
  CASE metric = "none" -> <<SetI(DOMAIN f, DOMAIN g), 1>>
    [] metric = "jaccard" -> Jaccard(DOMAIN f, DOMAIN g)
    [] metric = "overlap" -> Overlap(DOMAIN f, DOMAIN g)
    [] metric = "dice" -> Dice(DOMAIN f, DOMAIN g)
    [] metric = "binary_cosine" -> BinCos2(DOMAIN f, DOMAIN g)
    [] metric = "cosine" -> LET c == Cos2(f, g) IN <<Sgn(Dot(f, g)) * c[1], c[2]>>     \* signed square
Squared(metric) == metric \in {"cosine", "binary_cosine"}
\* threshold th = <<num, den>>, or <<>>; signed squares compare like the values they square
Kept(metric, w, th) ==
  /\ w[1] # 0
  /\ th # <<>> =>
       IF Squared(metric)
       THEN RLeq(<<Sgn(th[1]) * th[1] * th[1], th[2] * th[2]>>, w)
       ELSE RLeq(th, w)
\* a square root computed in floating point may fall on either side of a threshold it equals
Borderline(metric, w, th) == Squared(metric) /\ th # <<>> /\ w = Rt(th[1] * th[1], th[2] * th[2])
Projection(n, es, metric, th) ==
  LET V == TLCEval([u \in 1..n |-> Vec(es, u)])
  IN { <<u, v, Link(metric, V[u], V[v])>> : <<u, v>> \in
         { p \in (1..n) \X (1..n) : p[1] < p[2] /\ Kept(metric, Link(metric, V[p[1]], V[p[2]]), th) } }

(* weighted graphs: es = sequence of <<u, v, w>> *)
HeavyAdj(n, es, t) == Adj(n, { <<es[k][1], es[k][2]>> : k \in { h \in DOMAIN es : es[h][3] >= t } })
SizesOf(adj) == { <<c, Cardinality(c)>> : c \in ComponentsA(adj) }
\* size of the second largest component, 0 when there is only one
SecondLargest(adj) ==
  LET cs == ComponentsA(adj)
  IN IF Cardinality(cs) < 2 THEN 0
     ELSE LET big == CHOOSE c \in cs : \A d \in cs : Cardinality(c) >= Cardinality(d)
          IN Max({ Cardinality(d) : d \in cs \ {big} })
MaxWeight(es) == Max({ es[k][3] : k \in DOMAIN es })
IntLog(n) == IF n <= 2 THEN 0 ELSE IF n <= 7 THEN 1 ELSE IF n <= 20 THEN 2
             ELSE IF n <= 54 THEN 3 ELSE IF n <= 148 THEN 4 ELSE 5     \* floor of ln n, up to n = 403
DrifterSize(n, given) == IF given >= 0 THEN given ELSE IntLog(n)
\* may the search stop at threshold t, that is when trying t + lr?
Stops(n, es, t, lr, m) ==
  \/ t + lr > MaxWeight(es)
  \/ LET c == SecondLargest(HeavyAdj(n, es, t + lr)) IN c > 0 /\ c >= m
RECURSIVE Search(_, _, _, _, _)
Search(n, es, t, lr, m) == IF Stops(n, es, t, lr, m) THEN t ELSE Search(n, es, t + lr, lr, m)
Floatsam(n, es, start, lr, m) == IF es = <<>> THEN start ELSE Search(n, es, start, lr, m)

(* joins: lk, rk = keys of the left and right items *)
JoinPairs(lk, rk) == { <<x, y>> \in (DOMAIN lk) \X (DOMAIN rk) : Ran(lk[x]) \cap Ran(rk[y]) # {} }
=============================================================================
