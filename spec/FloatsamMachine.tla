--------------------------- MODULE FloatsamMachine ---------------------------
(***************************************************************************)
(* The threshold search of floatsam_sparsification, step by step, on every *)
(* weighted graph of N nodes: terminates, and stops at the first threshold *)
(* after which a significant component drifts away (or no edge remains).   *)
(***************************************************************************)
EXTENDS Bipartite, Json
CONSTANTS N, Weights, Starts, Rates, Drifters, Emit
D_all == {-1, 0, 1, 2}
Pairs == { p \in (1..N) \X (1..N) : p[1] < p[2] }
VARIABLES es, start, lr, m, t, best, pc
vars == <<es, start, lr, m, t, best, pc>>
EdgeSeqs == { [k \in 1..Cardinality(d) |-> <<SetToSeq(d)[k][1], SetToSeq(d)[k][2], f[SetToSeq(d)[k]]>>]
                : <<d, f>> \in { df \in (SUBSET Pairs) \X [Pairs -> Weights] : \A p \in Pairs \ df[1] : df[2][p] = Min(Weights) } }
Init == /\ es \in EdgeSeqs /\ start \in Starts /\ lr \in Rates /\ m \in Drifters
        /\ t = start /\ best = -1 /\ pc = IF es = <<>> THEN "done" ELSE "loop"
M == DrifterSize(N, m)
EmitCase == IF Emit THEN PrintT("CASE " \o ToJson([n |-> N, es |-> es, start |-> start, lr |-> lr, md |-> m])) ELSE TRUE
Loop == /\ pc = "loop"
        /\ best' = t /\ t' = t + lr
        /\ LET c == SecondLargest(HeavyAdj(N, es, t'))
           IN IF t' > MaxWeight(es) \/ (c > 0 /\ c >= M) THEN pc' = "done" /\ EmitCase ELSE UNCHANGED pc
        /\ UNCHANGED <<es, start, lr, m>>
Spec == Init /\ [][Loop]_vars /\ WF_vars(Loop)
Terminates == <>(pc = "done")
Right == pc = "done" /\ es # <<>> => best = Floatsam(N, es, start, lr, M)
\* removing the edges lighter than the answer never detaches a significant component (unless the start did)
Safe == pc = "done" /\ es # <<>> /\ best > start =>
          LET c == SecondLargest(HeavyAdj(N, es, best)) IN c = 0 \/ c < M
\* an edge remains, unless the start already excluded every edge
EdgesRemain == pc = "done" /\ es # <<>> /\ best > start => \E k \in DOMAIN es : es[k][3] >= best
=============================================================================
