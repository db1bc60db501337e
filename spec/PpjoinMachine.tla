---------------------------- MODULE PpjoinMachine ----------------------------
(***************************************************************************)
(* The all-pairs / PPJoin index-and-probe loop.  Records are processed by  *)
(* increasing length; each probes its prefix, token by token, collecting   *)
(* the candidates of the inverted index with their partial overlap; the    *)
(* positional filter may discard a candidate; a prefix of the record is    *)
(* then indexed and the surviving candidates are verified.                 *)
(***************************************************************************)
EXTENDS JoinSets, Json

CONSTANTS Universe, Count, Thresholds, Metrics, Variants, Emit
T_few == {<<1, 2>>, <<2, 3>>, <<4, 5>>, <<1, 1>>}
T_all == {<<1, 10>>, <<1, 4>>, <<1, 3>>, <<1, 2>>, <<3, 5>>, <<2, 3>>, <<3, 4>>, <<4, 5>>, <<9, 10>>, <<1, 1>>}

Records == { SetToSortSeq(s, LAMBDA x, y : x < y) : s \in SUBSET (1..Universe) }

VARIABLES recs, thr, metric, variant, order, nxt, t, index, occ, pairs, pc
vars == <<recs, thr, metric, variant, order, nxt, t, index, occ, pairs, pc>>

ML(l) == MinLength(metric, thr[1], thr[2], l)
NO(a, b) == NeededOverlap(metric, thr[1], thr[2], a, b)
PL(l) == ProbeLength(metric, thr[1], thr[2], l)
IL(l) == IndexLength(metric, thr[1], thr[2], l)

Init == /\ recs \in [1..Count -> Records] /\ thr \in Thresholds /\ metric \in Metrics /\ variant \in Variants
        /\ order = SortSeq(Iota(Count), LAMBDA x, y : Len(recs[x]) < Len(recs[y]) \/ (Len(recs[x]) = Len(recs[y]) /\ x < y))
        /\ nxt = 1 /\ t = 1 /\ index = {} /\ occ = [x \in 1..Count |-> 0] /\ pairs = {} /\ pc = "probe"

Rec == recs[order[nxt]]
\* one probed token: occ is the partial overlap of each candidate, -1 once discarded
Probe == /\ pc = "probe" /\ nxt <= Count /\ Len(Rec) > 0 /\ t <= PL(Len(Rec))
         /\ LET hits == { e \in index : e[1] = Rec[t] /\ Len(recs[e[2]]) >= ML(Len(Rec)) }
                pos(c) == (CHOOSE e \in hits : e[2] = c)[3]
            IN occ' = [c \in 1..Count |->
                 IF \A e \in hits : e[2] # c THEN occ[c]
                 ELSE IF variant = "all_pairs" THEN occ[c] + 1
                 ELSE IF occ[c] = -1 THEN -1
                 ELSE IF occ[c] + (Len(Rec) - t + 1) < NO(Len(Rec), Len(recs[c]))
                         \/ occ[c] + (Len(recs[c]) - pos(c) + 1) < NO(Len(Rec), Len(recs[c]))
                      THEN IF occ[c] = 0 THEN 0 ELSE -1
                 ELSE occ[c] + 1]
         /\ index' = IF t <= IL(Len(Rec)) THEN index \cup {<<Rec[t], order[nxt], t>>} ELSE index
         /\ t' = t + 1
         /\ UNCHANGED <<recs, thr, metric, variant, order, nxt, pairs, pc>>
Verify == /\ pc = "probe" /\ nxt <= Count /\ (Len(Rec) = 0 \/ t > PL(Len(Rec)))
          /\ pairs' = pairs \cup { Pr(order[nxt], c) : c \in { x \in 1..Count \ {order[nxt]} :
                 occ[x] > 0 /\ Similar(metric, thr[1], thr[2], Len(Rec), Len(recs[x]), Overlap(Rec, recs[x])) } }
          /\ nxt' = nxt + 1 /\ t' = 1 /\ occ' = [x \in 1..Count |-> 0]
          /\ UNCHANGED <<recs, thr, metric, variant, order, index, pc>>
Finish == /\ pc = "probe" /\ nxt > Count /\ pc' = "done"
          /\ IF Emit THEN PrintT("CASE " \o ToJson([n |-> Count, toks |-> recs, num |-> thr[1], den |-> thr[2], metric |-> metric, fn |-> variant])) ELSE TRUE
          /\ UNCHANGED <<recs, thr, metric, variant, order, nxt, t, index, occ, pairs>>
Next == Probe \/ Verify \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Want == { p \in (1..Count) \X (1..Count) : p[1] < p[2] /\
            Similar(metric, thr[1], thr[2], Len(recs[p[1]]), Len(recs[p[2]]), Overlap(recs[p[1]], recs[p[2]])) }
Sound == pairs \subseteq Want
Complete == pc = "done" => pairs = Want
\* the partial overlap never exceeds the real one
Partial == \A c \in 1..Count : nxt <= Count /\ occ[c] > 0 /\ c # order[nxt] => occ[c] <= Overlap(Rec, recs[c])
\* the length filter is the exact one: the overlap needed with the shortest admissible record fits in it
Bounds == \A l \in 1..(Universe + 2) : ML(l) >= 1 /\ ML(l) <= l /\ PL(l) >= IL(l) /\ IL(l) >= 1
=============================================================================
