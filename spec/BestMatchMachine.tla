-------------------------- MODULE BestMatchMachine --------------------------
(***************************************************************************)
(* best_matching_macro_average as a scan: truth clusters one by one, the   *)
(* candidate predicted clusters of each in any order, keeping the first    *)
(* candidate with the strictly largest f1.                                 *)
(***************************************************************************)
EXTENDS Numeric, Json

CONSTANTS Items, MaxClusters, Emit

\* sequences of pairwise disjoint non-empty sets; predicted must cover truth, extras allowed
Parts(n) == { p \in [1..n -> (SUBSET Items) \ {{}}] : \A a, b \in 1..n : a < b => p[a] \cap p[b] = {} }
AllParts == UNION { Parts(n) : n \in 1..MaxClusters }

VARIABLES T, P, k, todo, best, sums, pc
vars == <<T, P, k, todo, best, sums, pc>>

ti == UNION Ran(T)
Pk == { P[h] \cap ti : h \in DOMAIN P }
Cands(c) == { p \in Pk : p \cap c # {} }
Zero == << <<0, 1>>, <<0, 1>>, <<0, 1>> >>

Init == /\ T \in AllParts /\ P \in AllParts /\ ~BMErrors(T, P, TRUE)
        /\ k = 1 /\ todo = Cands(T[1]) /\ best = <<>> /\ sums = Zero /\ pc = "run"
Try == /\ pc = "run" /\ todo # {}
       /\ \E p \in todo :
            /\ todo' = todo \ {p}
            /\ LET s == BMScore(T[k], p)
               IN best' = IF best = <<>> \/ RLess(best[3], s[3]) THEN s ELSE best
       /\ UNCHANGED <<T, P, k, sums, pc>>
Take1 == /\ pc = "run" /\ todo = {}
         /\ sums' = [h \in 1..3 |-> RAdd(sums[h], best[h])]
         /\ best' = <<>>
         /\ IF k = Len(T)
            THEN pc' = "done" /\ UNCHANGED <<k, todo>>
                 /\ IF Emit THEN PrintT("CASE " \o ToJson([t |-> [h \in DOMAIN T |-> SetToSeq(T[h])], p |-> [h \in DOMAIN P |-> SetToSeq(P[h])]])) ELSE TRUE
            ELSE k' = k + 1 /\ todo' = Cands(T[k + 1]) /\ UNCHANGED pc
         /\ UNCHANGED <<T, P>>
Next == Try \/ Take1
Spec == Init /\ [][Next]_vars

Right == pc = "done" => [h \in 1..3 |-> RDivN(sums[h], Len(T))] \in BMAnswers(T, P)
InRange == pc = "done" => \A h \in 1..3 : RLess(<<0, 1>>, sums[h]) /\ RLeq(sums[h], <<Len(T), 1>>)
\* a prediction equal to the truth scores 1 everywhere
Perfect == pc = "done" /\ Ran(T) = Pk => sums = [h \in 1..3 |-> <<Len(T), 1>>]
=============================================================================
