----------------------------- MODULE GraphTrace -----------------------------
(* Judges recorded calls of fog.graph and fog.join.                        *)
EXTENDS Bipartite, TraceBase

UPair(p) == IF p[1] < p[2] THEN p ELSE [p EXCEPT ![1] = p[2], ![2] = p[1]]
ProjVerdict(e) ==
  IF e.refused THEN Chk(~e.bip, "bipartite_graph_refused")
  ELSE IF ~e.bip THEN {"not_bipartite_accepted"}
  ELSE LET got == { UPair(e.r[k]) : k \in DOMAIN e.r }
           want == Projection(e.n, e.es, e.metric, e.th)
           sure == { p \in want : ~Borderline(e.metric, p[3], e.th) }
           ends(S) == { <<p[1], p[2]>> : p \in S }
       IN Chk(Ran(e.nodes) = 1..e.n /\ Len(e.nodes) = e.n, "nodes_are_the_projected_part")
          \cup Chk(Cardinality(ends(got)) = Len(e.r), "edge_repeated")
          \cup Chk(ends(got) \subseteq ends(want), "edge_between_unrelated_nodes")
          \cup Chk(ends(sure) \subseteq ends(got), "edge_missed")
          \cup Chk(~(ends(got) \subseteq ends(want)) \/ got \subseteq want, "edge_weight")
          \cup Chk(~e.attrs_lost, "node_attributes_lost") \cup Chk(~e.mutated, "input_mutated")

FloatVerdict(e) ==
  LET want == Floatsam(e.n, e.es, e.start, e.lr, DrifterSize(e.n, e.md))
      kept == IF e.remove THEN SelectSeq(e.es, LAMBDA x : x[3] >= want) ELSE e.es
  IN Chk(e.t = want, "threshold")
     \cup Chk({ UPair(e.left[k]) : k \in DOMAIN e.left } = Ran(kept) /\ Len(e.left) = Len(kept), "edges_removed")
     \cup Chk(e.order = e.n, "nodes_removed")

SizesVerdict(e) ==
  LET adj == HeavyAdj(e.n, e.es, e.cut)
      cs == SetToSeq(ComponentsA(adj))
  IN Chk(SameBag([k \in DOMAIN cs |-> Cardinality(cs[k])], e.sizes), "component_sizes")
     \cup Chk(e.second = SecondLargest(adj), "second_largest")

JoinsVerdict(e) ==
  Chk({ <<e.r[k][1], e.r[k][2]>> : k \in DOMAIN e.r } = JoinPairs(e.lk, e.rk), "pairs_sharing_a_key")
  \cup Chk(IsSetSeq(e.r), "pair_repeated") \cup Chk(~e.mutated, "input_mutated")

GraphTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE CASE e.op = "proj" -> ProjVerdict(e)
         [] e.op = "floatsam" -> FloatVerdict(e)
         [] e.op = "sizes" -> SizesVerdict(e)
         [] e.op = "hashjoin" -> JoinsVerdict(e)
         [] OTHER -> {"unknown_op"}
=============================================================================
