----------------------------- MODULE ScanMachine -----------------------------
(***************************************************************************)
(* The two order-dependent clusterers on a similarity graph.               *)
(*  - "fuzzy": items are considered in any order (the order in which the   *)
(*    matches happened to arrive); an item that no earlier cluster took    *)
(*    yields itself with its neighbours when the size is in bounds.        *)
(*  - "leader": items are scanned in data order; see SimGraph!LeaderStep   *)
(*    (here one comparison per step, as in the code).                      *)
(***************************************************************************)
EXTENDS SimGraph, Json

CONSTANTS N, Bounds, Algorithms, Emit
AllPairs == { p \in (1..N) \X (1..N) : p[1] < p[2] }

VARIABLES E, bnd, algo, todo, visited, cl, i, j, cur, pc
vars == <<E, bnd, algo, todo, visited, cl, i, j, cur, pc>>
A == Adj(N, E)

Init == /\ E \in SUBSET AllPairs /\ bnd \in Bounds /\ algo \in Algorithms
        /\ todo = 1..N /\ visited = {} /\ cl = <<>> /\ i = 0 /\ j = 0 /\ cur = <<>> /\ pc = "run"

EmitCase == IF Emit THEN PrintT("CASE " \o ToJson([n |-> N, e |-> SetToSeq(E), mn |-> bnd[1], mx |-> bnd[2], algo |-> algo])) ELSE TRUE

Fuzzy == /\ algo = "fuzzy" /\ pc = "run" /\ todo # {}
         /\ \E x \in todo :
              /\ todo' = todo \ {x}
              /\ IF x \in visited \/ A[x] = {} \/ ~InBounds(Cardinality(A[x]) + 1, bnd[1], bnd[2])
                 THEN UNCHANGED <<visited, cl>>
                 ELSE visited' = visited \cup A[x] /\ cl' = Append(cl, <<x>> \o SetToSeq(A[x]))
         /\ UNCHANGED <<E, bnd, algo, i, j, cur, pc>>
FuzzyEnd == /\ algo = "fuzzy" /\ pc = "run" /\ todo = {} /\ pc' = "done" /\ EmitCase
            /\ UNCHANGED <<E, bnd, algo, todo, visited, cl, i, j, cur>>

\* leader: i is the current leader (0 before the first), j the next candidate
NextLeader == /\ algo = "leader" /\ pc = "run" /\ (i = 0 \/ j > N)
              /\ cl' = IF cur # <<>> /\ Len(cur) >= bnd[1] THEN Append(cl, cur) ELSE cl
              /\ LET free == { x \in (i + 1)..N : x \notin visited }
                 IN IF free = {} THEN /\ pc' = "done" /\ EmitCase /\ UNCHANGED <<i, j>>
                    ELSE /\ i' = Min(free) /\ j' = i' + 1 /\ UNCHANGED pc
              /\ cur' = <<>>
              /\ UNCHANGED <<E, bnd, algo, todo, visited>>
Compare == /\ algo = "leader" /\ pc = "run" /\ i > 0 /\ j <= N
           /\ IF j \in visited \/ j \notin A[i]
              THEN j' = j + 1 /\ UNCHANGED <<cur, visited>>
              ELSE LET c == IF cur = <<>> THEN <<i, j>> ELSE Append(cur, j)
                   IN IF bnd[2] >= 0 /\ Len(c) > bnd[2]
                      THEN \* too large: release the followers, give the leader up
                           cur' = <<>> /\ visited' = visited \ Ran(c) /\ j' = N + 1
                      ELSE cur' = c /\ visited' = visited \cup {j} /\ j' = j + 1
           /\ UNCHANGED <<E, bnd, algo, todo, cl, i, pc>>

Next == Fuzzy \/ FuzzyEnd \/ NextLeader \/ Compare
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
FuzzyRight == algo = "fuzzy" /\ pc = "done" => FuzzyAnswer(A, bnd[1], bnd[2], cl, TRUE) = {}
\* radius soundness holds in every reachable state, not only at the end
RadiusSound == /\ \A k \in DOMAIN cl : Ran(cl[k]) \subseteq Ball(A, cl[k][1])
               /\ algo = "leader" => \A k, h \in DOMAIN cl : k # h => Ran(cl[k]) \cap Ran(cl[h]) = {}
LeaderRight == algo = "leader" /\ pc = "done" => LeaderAnswer(A, bnd[1], bnd[2], cl) = {}
Terminates == <>(pc = "done")
=============================================================================
