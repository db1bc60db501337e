-------------------------- MODULE ProjectionMachine --------------------------
(***************************************************************************)
(* The traversal version of monopartite_projection: from every projected   *)
(* node (in any order) to its neighbours and to their neighbours, skipping *)
(* nodes already handled and edges already there.  It must agree with the  *)
(* definition, which compares all pairs.                                   *)
(***************************************************************************)
EXTENDS Bipartite, Json
CONSTANTS N, M, Weights, Metrics, Thresholds, Emit
Cells == (1..N) \X ((N + 1)..(N + M))
VARIABLES es, metric, th, todo, ord, out, pc
vars == <<es, metric, th, todo, ord, out, pc>>
T_all == {<<>>, <<1, 2>>, <<2, 3>>, <<1, 1>>}
EdgeSeqs == UNION { { [k \in 1..Cardinality(d) |-> <<SetToSeq(d)[k][1], SetToSeq(d)[k][2], f[SetToSeq(d)[k]]>>] : f \in [d -> Weights] }
                    : d \in SUBSET Cells }
Init == /\ es \in EdgeSeqs /\ metric \in Metrics /\ th \in Thresholds
        /\ todo = 1..N /\ ord = <<>> /\ out = {} /\ pc = "run"
V(u) == Vec(es, u)
\* a node with a null vector is never reached
Null(u) == IF metric = "cosine" THEN Norm2(V(u)) = 0 ELSE DOMAIN V(u) = {}
Around(u) == { v \in 1..N : v # u /\ DOMAIN V(u) \cap DOMAIN V(v) # {} }
Visit == /\ pc = "run" /\ todo # {}
         /\ LET u == Min(todo) IN
              /\ todo' = todo \ {u}
              /\ ord' = Append(ord, u)
              /\ out' = IF Null(u) THEN out
                        ELSE out \cup { <<u, v, Link(metric, V(u), V(v))>> : v \in
                               { x \in Around(u) \ Ran(ord) : x > u /\ ~Null(x) /\ Kept(metric, Link(metric, V(u), V(x)), th) } }
         /\ UNCHANGED <<es, metric, th, pc>>
End == /\ pc = "run" /\ todo = {} /\ pc' = "done"
       /\ IF Emit THEN PrintT("CASE " \o ToJson([n |-> N, es |-> es, metric |-> metric, th |-> th])) ELSE TRUE
       /\ UNCHANGED <<es, metric, th, todo, ord, out>>
Next == Visit \/ End
Spec == Init /\ [][Next]_vars
Agrees == pc = "done" => out = Projection(N, es, metric, th)
=============================================================================
