--------------------------- MODULE FaginMachine ---------------------------
(***************************************************************************)
(* Fagin's rounds for one query vector: the lists of its dimensions (in    *)
(* any order: sorting only decides which items are seen first) are read in *)
(* parallel until two items, the query being one, were seen in all of      *)
(* them.  The items seen are the candidates.                               *)
(***************************************************************************)
EXTENDS Candidates, Json

CONSTANTS Dims, Count0, Emit
VARIABLES sup, q, lists, offset, seen, pc
vars == <<sup, q, lists, offset, seen, pc>>
Holders(s, d) == { j \in 1..Count0 : d \in s[j] }
Orders(S) == { p \in [1..Cardinality(S) -> S] : Ran(p) = S }
Init == /\ sup \in [1..Count0 -> SUBSET Dims] /\ q \in 1..Count0
        /\ lists \in { f \in [sup[q] -> UNION { Orders(Holders(sup, d)) : d \in sup[q] }] : \A d \in sup[q] : Ran(f[d]) = Holders(sup, d) }
        /\ offset = 1 /\ seen = [j \in 1..Count0 |-> {}] /\ pc = "read"
Full(s) == { j \in 1..Count0 : s[j] = sup[q] /\ s[j] # {} }
Read == /\ pc = "read"
        /\ LET live == { d \in sup[q] : offset <= Len(lists[d]) }
               s2 == [j \in 1..Count0 |-> seen[j] \cup { d \in live : lists[d][offset] = j }]
           IN IF live = {} THEN pc' = "none" /\ UNCHANGED <<seen, offset>>
              ELSE /\ seen' = s2
                   /\ IF Cardinality(Full(s2)) >= 2 THEN pc' = "found" /\ UNCHANGED offset ELSE offset' = offset + 1 /\ UNCHANGED pc
        /\ IF Emit /\ pc' # "read" /\ q = 1 THEN PrintT("CASE " \o ToJson([mode |-> "lists", vs |-> [k \in 1..Count0 |-> { <<d, k>> : d \in sup[k] }]])) ELSE TRUE
        /\ UNCHANGED <<sup, q, lists>>
Next == Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Seen == { j \in 1..Count0 : j # q /\ seen[j] # {} }
CoversQ(j) == j # q /\ sup[q] # {} /\ sup[q] \subseteq sup[j]
Sound == \A j \in Seen : sup[j] \cap sup[q] # {}
\* an answer is given exactly when some other vector has all the dimensions of the query, and holds one
Answered == (pc = "found" => \E j \in Seen : CoversQ(j)) /\ (pc = "none" => ~\E j \in 1..Count0 : CoversQ(j))
Ends == <>(pc # "read")
=============================================================================
