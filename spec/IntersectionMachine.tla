------------------------ MODULE IntersectionMachine ------------------------
(***************************************************************************)
(* The incremental intersection index: items are read in order, each token *)
(* of an item meets the items already filed under that token and bumps     *)
(* their intersection counter, then files the item.  Tokens of one item    *)
(* are considered in any order, once each however often they repeat.       *)
(***************************************************************************)
EXTENDS JoinSets, Json

CONSTANTS Universe, Count, Thresholds, Metrics, Emit
T_some == {<<1, 3>>, <<1, 2>>, <<2, 3>>, <<1, 1>>}
VARIABLES toks, thr, metric, nxt, left, bucket, inter, pc
vars == <<toks, thr, metric, nxt, left, bucket, inter, pc>>

Init == /\ toks \in [1..Count -> SUBSET (1..Universe)] /\ thr \in Thresholds /\ metric \in Metrics
        /\ nxt = 1 /\ left = toks[1] /\ bucket = [k \in 1..Universe |-> <<>>]
        /\ inter = [p \in (1..Count) \X (1..Count) |-> 0] /\ pc = "read"
File == /\ pc = "read" /\ left # {}
        /\ LET k == CHOOSE x \in left : TRUE IN
             /\ inter' = [p \in DOMAIN inter |-> IF p[1] = nxt /\ p[2] \in Ran(bucket[k]) THEN inter[p] + 1 ELSE inter[p]]
             /\ bucket' = [bucket EXCEPT ![k] = Append(@, nxt)]
             /\ left' = left \ {k}
        /\ UNCHANGED <<toks, thr, metric, nxt, pc>>
NextItem == /\ pc = "read" /\ left = {}
            /\ IF nxt = Count THEN pc' = "done" /\ UNCHANGED <<nxt, left>>
                                   /\ IF Emit THEN PrintT("CASE " \o ToJson([n |-> Count, toks |-> [x \in 1..Count |-> SetToSeq(toks[x])], num |-> thr[1], den |-> thr[2], metric |-> metric])) ELSE TRUE
               ELSE nxt' = nxt + 1 /\ left' = toks[nxt + 1] /\ UNCHANGED pc
            /\ UNCHANGED <<toks, thr, metric, bucket, inter>>
Next == File \/ NextItem
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
\* the counters are exact for every item fully read, and only link it to earlier ones
Counters == \A x, y \in 1..Count :
  inter[<<x, y>>] = IF y < x /\ x <= nxt THEN Cardinality((toks[x] \ (IF x = nxt THEN left ELSE {})) \cap toks[y]) ELSE 0
Passes(i, a, b) == i > 0 /\ IF metric = "jaccard" THEN i * thr[2] >= thr[1] * (a + b - i) ELSE i * thr[2] >= thr[1] * Mn(a, b)
Answer == pc = "done" => \A x, y \in 1..Count : y < x =>
  (Passes(inter[<<x, y>>], Cardinality(toks[x]), Cardinality(toks[y]))
     <=> LET i == Cardinality(toks[x] \cap toks[y])
         IN i > 0 /\ IF metric = "jaccard" THEN i * thr[2] >= thr[1] * Cardinality(toks[x] \cup toks[y])
                     ELSE i * thr[2] >= thr[1] * Mn(Cardinality(toks[x]), Cardinality(toks[y])))
\* Jaccard never exceeds overlap: a pair linked by jaccard is linked by overlap
Order == pc = "done" /\ metric = "jaccard" => \A x, y \in 1..Count : x # y =>
  LET i == Cardinality(toks[x] \cap toks[y])
  IN i > 0 /\ i * thr[2] >= thr[1] * Cardinality(toks[x] \cup toks[y]) => i * thr[2] >= thr[1] * Mn(Cardinality(toks[x]), Cardinality(toks[y]))
=============================================================================
