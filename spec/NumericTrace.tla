---------------------------- MODULE NumericTrace ----------------------------
(* Judges recorded calls of fog.metrics, fog.lsh, fog.evaluation, fog.utils. *)
EXTENDS Candidates, TraceBase

(* ----- set metrics: a, b token ids; v, w answers for (A, B) and (B, A) ---- *)
SetMetric(e) ==
  LET a == Ran(e.a)
      b == Ran(e.b)
      want == CASE e.metric = "jaccard" -> Jaccard(a, b)
                [] e.metric = "overlap" -> Overlap(a, b)
                [] e.metric = "dice" -> Dice(a, b)
                [] e.metric \in {"binary_cosine", "sparse_binary_cosine"} -> BinCos2(a, b)
                [] e.metric = "intersection_size" -> <<SetI(a, b), 1>>
  IN Chk(e.v = want, "value") \cup Chk(e.w = want, "symmetric") \cup Chk(~e.neg, "negative")
     \cup Chk(a = b => e.one \/ e.metric = "intersection_size", "identical_is_one")
     \cup Chk(~e.above, "above_one") \cup Chk(~e.mutated, "input_mutated")

(* ----- weighted metrics --------------------------------------------------- *)
WeightedMetric(e) ==
  LET f == IF "sa" \in DOMAIN e THEN Count(e.sa) ELSE WSet(e.a)
      g == IF "sb" \in DOMAIN e THEN Count(e.sb) ELSE WSet(e.b)
  IN Chk(~e.mutated, "input_mutated") \cup
     CASE e.metric = "cosine" ->
            Chk(e.v = Cos2(f, g), "value") \cup Chk(e.w = e.v /\ e.sgnw = e.sgn, "symmetric")
            \cup Chk(e.sgn = Sgn(Cos2(f, g)[1]) * Sgn(Dot(f, g)), "sign") \cup Chk(~e.above, "above_one")
       [] e.metric = "weighted_jaccard" ->
            Chk(e.v = WJ(f, g), "value") \cup Chk(e.w = e.v, "symmetric") \cup Chk(~e.above, "above_one")
       [] e.metric = "dot" -> Chk(e.v = <<Dot(f, g), 1>>, "value") \cup Chk(e.w = e.v, "symmetric")
       [] e.metric = "norm" -> Chk(e.v = <<Norm2(f), 1>>, "value")
       [] e.metric = "normalize" ->
            Chk({ <<e.v[k][1], e.v[k][2], e.v[k][3]>> : k \in DOMAIN e.v }
                  = IF Norm2(f) = 0 THEN {} ELSE { <<t, Sgn(f[t]), Rt(f[t] * f[t], Norm2(f))>> : t \in DOMAIN f }, "value")
            \cup Chk(Len(e.v) = Cardinality({ e.v[k][1] : k \in DOMAIN e.v }), "value")

(* ----- best matching ------------------------------------------------------- *)
\* many truth clusters: averages in millionths, since the exact ones outgrow the machine integers
Millionths(r) == (1000000 * r[1]) \div r[2]
BMLarge(e, T, P) ==
  LET ti == UNION Ran(T)
      Ps == { P[k] \cap ti : k \in DOMAIN P }
      best == [k \in DOMAIN T |-> BMBest(T[k], Ps)]
      at(k, i) == { Millionths(s[i]) : s \in best[k] }
      sum(f(_)) == FoldLeft(LAMBDA acc, k : acc + f(k), 0, [k \in DOMAIN T |-> k])
      n == Len(T)
      low(i) == sum(LAMBDA k : Min(at(k, i))) - n
      high(i) == sum(LAMBDA k : Max(at(k, i))) + 2 * n
      fits(i) == LET v == e.ppm[i] * n IN low(i) <= v /\ v <= high(i)
  IN Chk(fits(3), "macro_f1") \cup Chk(fits(1) /\ fits(2), "macro_precision_recall")
BMVerdict(e) ==
  LET T == [k \in DOMAIN e.t |-> Ran(e.t[k])]
      P == [k \in DOMAIN e.p |-> Ran(e.p[k])]
      \* an item repeated inside one predicted cluster is refused too
      rep == \E k \in DOMAIN e.p : \E x \in Ran(e.p[k]) \cap UNION Ran(T) : Occ(e.p[k], x) > 1
      must == BMErrors(T, P, e.allow) \/ rep
  IN IF e.refused THEN Chk(must, "valid_clusters_refused")
     ELSE IF must THEN {"invalid_clusters_accepted"}
     ELSE IF "ppm" \in DOMAIN e THEN BMLarge(e, T, P)
     ELSE LET ans == BMAnswers(T, P)
              got == <<e.prec, e.rec, e.f1>>
          IN Chk(\E a \in ans : a[3] = e.f1, "macro_f1") \cup Chk(got \in ans, "macro_precision_recall")

(* ----- labels --------------------------------------------------------------- *)
LabelVerdict(e) ==
  CASE e.op = "l2c" -> Chk(e.cl = GroupByLabel(e.ls), "labels_to_clusters")
    [] e.op = "c2l" -> Chk({ <<e.ls[k][1], e.ls[k][2]>> : k \in DOMAIN e.ls } = LabelsOf(e.cl)
                           /\ IsSetSeq([k \in DOMAIN e.ls |-> e.ls[k][1]]), "clusters_to_labels")
    [] e.op = "c2lf" -> Chk(LET L == LabelsOf(e.cl) IN
                            /\ Len(e.ls) = Cardinality(L)
                            /\ \A k \in DOMAIN e.ls : <<k - 1, e.ls[k]>> \in L, "clusters_to_flat_labels")
    [] e.op = "lround" -> Chk(e.back = e.cl, "labels_round_trip")

(* ----- online mean: every register is viewed after every operation ---------- *)
RECURSIVE MeanWalk(_, _, _)
MeanWalk(e, k, regs) ==
  IF k > Len(e.ops) THEN {}
  ELSE LET o == e.ops[k]
           nxt == MeanStep(regs, o)
           seen == e.seen[k]
       IN Chk((seen.refused = 1) = MeanRefused(regs, o), "refusal")
          \cup Chk([r \in 1..3 |-> seen.views[r]] = [r \in 1..3 |-> MeanView(nxt[r])], "mean")
          \cup MeanWalk(e, k + 1, nxt)

(* ----- signatures ------------------------------------------------------------ *)
SigVerdict(e) ==
  LET a == Ran(e.a)
      b == Ran(e.b)
      both == a # {} /\ b # {}
      ext(s) == IF e.kind = "super" THEN [k \in DOMAIN s |-> <<0, s[k]>>] ELSE s
  IN Chk(Len(e.sa) = e.h /\ Len(e.sb) = e.h /\ Len(e.su) = e.h, "signature_length")
     \cup Chk(e.sa2 = e.sa, "same_set_same_signature")
     \cup Chk(a = b => e.sa = e.sb, "same_set_same_signature")
     \cup (IF e.kind = "lsb"
           THEN Chk(both => \A k \in DOMAIN e.sa : e.sa[k] = e.sb[k] => e.su[k] = e.sa[k], "union_signature")
                \cup Chk(e.sim = Rt(e.h - 2 * (e.h - Agree(e.sa, e.sb)), e.h), "similarity")
           ELSE Chk(both => ext(e.su) = MinSig(ext(e.sa), ext(e.sb)), "union_signature")
                \cup Chk(e.sim = Rt(Agree(e.sa, e.sb), e.h), "similarity"))
     \cup Chk(e.self = <<1, 1>>, "self_similarity")
\* rows come from different hash functions: they do not repeat one another
RowsOf(e) == IF e.kind = "lsb" THEN [w \in 1..(Len(e.sa) \div 64) |-> SubSeq(e.sa, 64 * w - 63, 64 * w)] ELSE e.sa
SpreadVerdict(e) == Chk(e.kind = "super" \/ e.a = <<>> \/ 4 * Cardinality(Ran(RowsOf(e))) >= 3 * Len(RowsOf(e)), "rows_repeat")
\* two given signatures
SigSimVerdict(e) == Chk(e.sim = Rt(IF e.kind = "lsb" THEN e.h - 2 * (e.h - Agree(e.sa, e.sb)) ELSE Agree(e.sa, e.sb), e.h), "similarity")
\* the estimate of a long signature, against the exact similarity: |est - J| <= tol (all in 1/1000)
EstVerdict(e) ==
  LET j == Jaccard(Ran(e.a), Ran(e.b))
  IN Chk(Abs(e.est * j[2] - 1000 * j[1]) <= e.tol * j[2], "estimate")

SimhashVerdict(e) ==
     Chk(e.sig = Majority(e.bits, e.mult, e.f), "majority_of_token_bits")
  \cup Chk(e.sig2 = e.sig, "order_independent")
  \cup Chk(e.over = 0, "signature_length")
  \* different tokens have different bits, as far as a hash can tell
  \cup Chk(e.f < 64 \/ Cardinality(Ran(e.bits)) = Len(e.bits), "tokens_confused")
SimhashSim(e) == LET d == e.f - Agree(e.x, e.y)
                 IN Chk(e.dist = Rt(d, e.f), "hamming_distance") \cup Chk(e.sim = Rt(e.f - d, e.f), "hamming_similarity")

(* ----- candidate pairs of sparse vectors ----------------------------------------- *)
CandVerdict(e) ==
  LET vs == TLCEval([k \in DOMAIN e.vs |-> TLCEval(WSet(e.vs[k]))])
      n == Len(vs)
      of(i) == SelectSeq(e.r, LAMBDA p : p[1] = i)
      others(i) == { j \in 1..n : j # i /\ Shares(vs, i, j) }
      lead == [i \in 1..n |-> of(i)[1][2]]
  IN Chk(~e.mutated, "input_mutated") \cup
     CASE e.how = "lists" -> Chk(Ran(e.r) = SharedPairs(vs), "pairs_sharing_a_dimension") \cup Chk(IsSetSeq(e.r), "each_pair_once")
       [] e.how = "leaders" ->
            IF \E i \in 1..n : of(i) = <<>> THEN {"every_item_has_a_leader"}
            ELSE Chk(GoodLeaders(vs, lead), "closest_of_few_leaders")
                 \cup Chk(\A i \in 1..n : Ran(of(i)) = Ran(LeaderPairs(lead, i)) /\ Len(of(i)) = Len(LeaderPairs(lead, i)), "meets_those_of_its_leader")
                 \cup Chk(Len(e.r) = SumSeq([i \in 1..n |-> Len(of(i))]), "meets_those_of_its_leader")
       \* candidates are items sharing a dimension, never the item itself
       [] e.how = "fa" -> Chk(\A k \in DOMAIN e.r : Ran(e.r[k][2]) \subseteq others(e.r[k][1]) /\ IsSetSeq(e.r[k][2]), "candidates_share_a_dimension")
                          \cup Chk(IsSetSeq([k \in DOMAIN e.r |-> e.r[k][1]]), "one_answer_per_item")
                          \cup Chk(\A i \in 1..n : (\E j \in 1..n : HasAll(vs, i, j)) <=> of(i) # <<>>, "answers_contained_vectors")
                          \cup Chk(\A k \in DOMAIN e.r : \E j \in Ran(e.r[k][2]) : HasAll(vs, e.r[k][1], j), "candidates_hold_a_container")
       \* one neighbour per item: one sharing a dimension if any does, else the item itself
       [] e.how = "ta" -> Chk([k \in DOMAIN e.r |-> e.r[k][1]] = Iota(n), "one_answer_per_item")
                          \cup Chk(\A k \in DOMAIN e.r : IF others(e.r[k][1]) = {} THEN e.r[k][2] = e.r[k][1] ELSE e.r[k][2] \in others(e.r[k][1]), "neighbour_shares_a_dimension")

NumericTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE CASE e.op = "setm" -> SetMetric(e)
         [] e.op = "wm" -> WeightedMetric(e)
         [] e.op = "bm" -> BMVerdict(e)
         [] e.op \in {"l2c", "c2l", "c2lf", "lround"} -> LabelVerdict(e)
         [] e.op = "mean" -> MeanWalk(e, 1, <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>)
         [] e.op = "sq" -> Chk(e.r = SqueezeKeep(e.s, IF e.roman THEN Roman ELSE {}), "squeeze")
         [] e.op = "sig" -> SigVerdict(e) \cup SpreadVerdict(e)
         [] e.op = "sigsim" -> SigSimVerdict(e)
         [] e.op = "est" -> EstVerdict(e)
         [] e.op = "xproc" -> Chk(e.sig = e.first, "same_in_every_process")
         [] e.op = "simhash" -> SimhashVerdict(e)
         [] e.op = "shspread" -> Chk(\A k \in 1..e.f : { e.bits[t][k] : t \in DOMAIN e.bits } = {0, 1}, "every_bit_depends_on_the_tokens")
         [] e.op = "simsim" -> SimhashSim(e)
         [] e.op = "cand" -> CandVerdict(e)
         [] OTHER -> {"unknown_op"}
=============================================================================
