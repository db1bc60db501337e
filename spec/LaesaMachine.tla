---------------------------- MODULE LaesaMachine ----------------------------
(***************************************************************************)
(* LAESA: distances to a few pivots are computed first; a pair is compared *)
(* only when no pivot tells the two items further apart than the radius.   *)
(* Any choice of pivots is explored, one pair per step.                    *)
(***************************************************************************)
EXTENDS Neighborhood, Json

CONSTANTS Span, Count, Radii, Emit
VARIABLES pts, r, piv, todo, found, computed
vars == <<pts, r, piv, todo, found, computed>>
All == 1..Count
D(x, y) == Abs(pts[x] - pts[y])
AllPairs == { p \in All \X All : p[1] < p[2] }

Init == /\ pts \in { SetToSortSeq(s, LAMBDA a, b : a < b) : s \in kSubset(Count, 0..Span) } /\ r \in Radii
        /\ piv \in SUBSET All /\ todo = AllPairs /\ found = {} /\ computed = 0
Pair == /\ todo # {}
        /\ LET p == CHOOSE q \in todo : TRUE
               far == \E v \in piv : Abs(D(v, p[1]) - D(v, p[2])) > r
           IN /\ todo' = todo \ {p}
              /\ computed' = computed + IF far THEN 0 ELSE 1
              /\ found' = IF ~far /\ D(p[1], p[2]) <= r THEN found \cup {p} ELSE found
        /\ UNCHANGED <<pts, r, piv>>
Next == Pair
EmitInit == Emit => \A s \in kSubset(Count, 0..Span), x \in Radii :
              PrintT("CASE " \o ToJson([pts |-> SetToSortSeq(s, LAMBDA a, b : a < b), r |-> x]))
Spec == (Init /\ EmitInit) /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Close == { p \in AllPairs : D(p[1], p[2]) <= r }
Sound == found \subseteq Close
NeverLost == Close \subseteq found \cup todo
\* pivots only spare comparisons
Cheaper == computed <= Cardinality(AllPairs)
Terminates == <>(todo = {})
=============================================================================
