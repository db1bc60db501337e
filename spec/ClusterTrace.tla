---------------------------- MODULE ClusterTrace ----------------------------
(***************************************************************************)
(* Judges recorded calls of the clustering functions.  Clusters are logged *)
(* as sequences of positions in the input (1-based); e is the list of      *)
(* similar pairs of positions the user-supplied function defined.          *)
(***************************************************************************)
EXTENDS Neighborhood, EditDistance, Bands, TraceBase

Es(e) == PairSeqToSet(e.e)
\* everything logged is a position of the input
Known(e) == Chk(\A k \in DOMAIN e.cl : Ran(e.cl[k]) \subseteq 1..e.n /\ e.cl[k] # <<>>, "not_an_input_item")

GraphVerdict(e, E) == LET k == Known(e) IN IF k # {} THEN k ELSE ModeAnswer(e.mode, Adj(e.n, E), e.mn, e.mx, e.cl)

\* items that compare equal are indistinguishable: compare bags of values
Norm(vals) == SortSeq(vals, LAMBDA x, y : x < y)
DupVerdict(e) ==
  LET want == SetToSeq({ <<c, Norm([k \in 1..Cardinality(c) |-> e.vals[SetToSeq(c)[k]]])>>
                           : c \in ComponentClusters(Adj(e.n, Es(e)), e.mn, e.mx) })
  IN Chk(SameBag([k \in 1..Len(want) |-> want[k][2]], [k \in DOMAIN e.cl |-> Norm(e.cl[k])]), "clusters_are_components")

(* ----- key collision without merging: one cluster per key --------------- *)
KeyClusters(e) ==
  LET keys == SetToSeq(UNION { Ran(e.bl[x]) : x \in DOMAIN e.bl } \ {0})
      bucket(k) == { x \in DOMAIN e.bl : k \in Ran(e.bl[x]) }
  IN SelectSeq([h \in 1..Len(keys) |-> bucket(keys[h])], LAMBDA c : InBounds(Cardinality(c), e.mn, e.mx))
KeyVerdict(e) ==
  IF e.merge THEN GraphVerdict([e EXCEPT !.mode = "connected_components"], SharePairs(e.bl))
  ELSE Known(e)
       \cup Chk(\A k \in DOMAIN e.cl : IsSetSeq(e.cl[k]), "item_repeated_in_cluster")
       \cup Chk(SameBag(KeyClusters(e), [k \in DOMAIN e.cl |-> Ran(e.cl[k])]), "one_cluster_per_key")

(* ----- token sets -------------------------------------------------------- *)
Inter(x, y) == Cardinality(Ran(x) \cap Ran(y))
Uni(x, y) == Cardinality(Ran(x) \cup Ran(y))
\* similarity at least num/den; two empty sets are never similar
SetSimilar(metric, x, y, num, den) ==
  LET i == Inter(x, y)
      a == Cardinality(Ran(x))
      b == Cardinality(Ran(y))
  IN i > 0 /\ CASE metric = "jaccard" -> i * den >= num * Uni(x, y)
                [] metric = "overlap" -> i * den >= num * Mn(a, b)
                [] metric = "dice" -> 2 * i * den >= num * (a + b)
                [] metric = "binary_cosine" -> i * i * den * den >= num * num * a * b
TokenPairs(e) == { <<x, y>> \in (1..e.n) \X (1..e.n) : x < y /\ SetSimilar(e.metric, e.toks[x], e.toks[y], e.num, e.den) }

(* ----- points and strings in a metric space ------------------------------ *)
L1(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
PointPairs(e) == { <<x, y>> \in (1..e.n) \X (1..e.n) : x < y /\ L1(e.pts[x], e.pts[y]) <= e.r }
StringPairs(e) == { <<x, y>> \in (1..e.n) \X (1..e.n) :
                      x < y /\ Abs(Len(e.strs[x]) - Len(e.strs[y])) <= e.r
                      /\ (IF e.n > 60 \/ Len(e.strs[x]) > 60 THEN Near(e.r, e.strs[x], e.strs[y]) ELSE Lev(e.strs[x], e.strs[y])) <= e.r }
MetricPairs(e) == IF "pts" \in DOMAIN e THEN PointPairs(e) ELSE StringPairs(e)

(* ----- approximate methods: sound, not complete -------------------------- *)
\* every cluster is held together by truly similar pairs
SoundVerdict(e, E, musts) ==
  LET adj == Adj(e.n, E)
      within(c) == [x \in DOMAIN adj |-> IF x \in c THEN adj[x] \cap c ELSE {}]
      k == Known(e)
  IN IF k # {} THEN k ELSE
     Chk(\A h \in DOMAIN e.cl : IsSetSeq(e.cl[h]), "item_repeated_in_cluster")
     \cup Chk(\A h \in DOMAIN e.cl : InBounds(Len(e.cl[h]), e.mn, e.mx), "size_bounds")
     \cup (IF e.mode = "fuzzy_clusters"
           THEN Chk(\A h \in DOMAIN e.cl : Ran(e.cl[h]) \subseteq Ball(adj, e.cl[h][1]), "radius_around_centre")
           ELSE Chk(\A h \in DOMAIN e.cl : ComponentOf(within(Ran(e.cl[h])), e.cl[h][1]) = Ran(e.cl[h]), "held_together_by_similar_pairs")
                \cup Chk(\A h, g \in DOMAIN e.cl : h < g => Ran(e.cl[h]) \cap Ran(e.cl[g]) = {}, "clusters_overlap"))
     \cup Chk(\A p \in musts : \E h \in DOMAIN e.cl : {p[1], p[2]} \subseteq Ran(e.cl[h]), "certain_pair_missed")

\* identical non-empty token sets always collide
SameSets(e) == { <<x, y>> \in (1..e.n) \X (1..e.n) : x < y /\ e.toks[x] # <<>> /\ Ran(e.toks[x]) = Ran(e.toks[y]) }

(* ----- minhash: exactly the similar pairs sharing a band of rows --------- *)
BandPairs(e, bands) ==
  LET rows == e.h \div bands
  IN { <<x, y>> \in (1..e.n) \X (1..e.n) : x < y /\ \E b \in 0..(bands - 1) :
         \A k \in (b * rows + 1)..((b + 1) * rows) : e.sigs[x][k] = e.sigs[y][k] }
AutoVerdict(e) ==
  LET good == GoodBands(e.h, e.num, e.den)
  IN IF \E b \in good : GraphVerdict(e, TokenPairs(e) \cap BandPairs(e, b)) = {} THEN {} ELSE {"automatic_bands"}

(* ----- joins: pairs instead of clusters ---------------------------------- *)
JoinVerdict(e, E) ==
     Chk(\A k \in DOMAIN e.pairs : Ran(e.pairs[k]) \subseteq 1..e.n /\ e.pairs[k][1] # e.pairs[k][2], "not_a_pair_of_records")
  \cup Chk(Cardinality(PairSeqToSet(e.pairs)) = Len(e.pairs), "pair_repeated")
  \cup Chk(PairSeqToSet(e.pairs) \subseteq E, "pair_below_threshold")
  \cup Chk(E \subseteq PairSeqToSet(e.pairs), "pair_missed")

\* two answers are the same when they have the same clusters around the same centres
Answer(mode, cl) == IF mode = "fuzzy_clusters" THEN { <<cl[k][1], Ran(cl[k])>> : k \in DOMAIN cl } ELSE { Ran(cl[k]) : k \in DOMAIN cl }
SameAnswer(e, cl, name) == Chk(\A k \in DOMAIN cl : cl[k] # <<>>, name) \cup Chk(Answer(e.mode, e.cl) = Answer(e.mode, cl) /\ Len(e.cl) = Len(cl), name)

ClusterTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE Chk(~e.mutated, "input_mutated") \cup
       CASE e.op = "pairwise" -> GraphVerdict(e, Es(e)) \cup SameAnswer(e, e.again, "depends_on_the_delivery")
         [] e.op = "pairwise_dup" -> DupVerdict(e)
         [] e.op = "blocking" -> GraphVerdict(e, Es(e) \cap SharePairs(e.bl))
                                 \cup SameAnswer(e, e.again, "depends_on_the_delivery") \cup SameAnswer(e, e.alone, "depends_on_the_processes")
         [] e.op = "keycol" -> KeyVerdict(e)
         [] e.op = "snm" -> GraphVerdict(e, Es(e) \cap UNION { WindowPairs(e.keys[k], e.w) : k \in DOMAIN e.keys })
         [] e.op = "asnm" -> GraphVerdict(e, Es(e) \cap UNION { AdaptivePairs(e.keys[k], e.w, Es(e)) : k \in DOMAIN e.keys })
         [] e.op = "iidx" -> GraphVerdict(e, TokenPairs(e))
         [] e.op = "vptree" -> LET k == Known(e) IN IF k # {} THEN k ELSE FuzzyAnswer(Adj(e.n, MetricPairs(e)), e.mn, e.mx, e.cl, FALSE)
         [] e.op = "passjoin" -> GraphVerdict(e, StringPairs(e))
         [] e.op = "laesa" -> GraphVerdict(e, MetricPairs(e))
         [] e.op = "quickjoin" -> GraphVerdict(e, MetricPairs(e)) \cup SameAnswer(e, e.again, "seed_not_reproducible")
         [] e.op = "ppjoin" -> JoinVerdict(e, TokenPairs(e))
         [] e.op = "minhash" -> SoundVerdict(e, TokenPairs(e), SameSets(e))
                                \cup Chk(e.cl = e.again, "seed_not_reproducible")
         [] e.op = "minhash_bands" -> GraphVerdict(e, TokenPairs(e) \cap BandPairs(e, e.bands))
         [] e.op = "minhash_auto" -> AutoVerdict(e)
         [] e.op = "nnd" -> SoundVerdict(e, MetricPairs(e), {})
                            \cup (IF e.n <= 2 \/ ("k" \in DOMAIN e /\ e.k >= e.n - 1) THEN GraphVerdict(e, MetricPairs(e)) ELSE {})
                            \cup Chk(e.cl = e.again, "seed_not_reproducible")
         [] OTHER -> {"unknown_op"}
=============================================================================
