-------------------------- MODULE QuickjoinMachine --------------------------
(***************************************************************************)
(* QuickJoin in a metric space: blocks are split by a ball around a random *)
(* pivot whose radius is the distance to another one; the items within the *)
(* radius of the border form the windows, joined with each other.  Pivots  *)
(* are drawn in every possible way.  Points live on a line (a metric).     *)
(***************************************************************************)
EXTENDS Neighborhood, Json

CONSTANTS Span, Count, Radii, BlockSize, Emit
VARIABLES pts, r, pend, found, pc
vars == <<pts, r, pend, found, pc>>

D(x, y) == Abs(pts[x] - pts[y])
All == 1..Count
\* distinct points (identical items are removed first)
Init == /\ pts \in { SetToSortSeq(s, LAMBDA a, b : a < b) : s \in kSubset(Count, 0..Span) }
        /\ r \in Radii
        /\ pend = {<<All, {}>>} /\ found = {} /\ pc = "run"

\* a pending task is <<S1, S2>>: join S1 with S2, or S1 with itself when S2 is empty ("self" marks it)
IsSelf(b) == b[2] = {}
Size(b) == Cardinality(b[1]) + Cardinality(b[2])
L(S, p, rho) == { x \in S : D(p, x) < rho }
G(S, p, rho) == { x \in S : D(p, x) >= rho }
Lw(S, p, rho) == { x \in L(S, p, rho) : D(p, x) >= rho - r }
Gw(S, p, rho) == { x \in G(S, p, rho) : D(p, x) <= rho + r }
\* tasks without a side are dropped; a self task of less than two items too
Useful(S) == { b \in S : b[1] # {} }
Win(A, B) == IF A = {} \/ B = {} THEN {} ELSE {<<A, B>>}

\* tasks are independent: it is enough to take them in one order
Task == CHOOSE b \in pend : TRUE
Split == /\ pc = "run"
         /\ pend # {} /\ LET b == Task IN Size(b) > BlockSize /\
              \E p, q \in b[1] \cup b[2] : p # q /\
                LET rho == D(p, q)
                    parts == IF IsSelf(b)
                             THEN Useful({<<L(b[1], p, rho), {}>>, <<G(b[1], p, rho), {}>>})
                                  \cup Win(Lw(b[1], p, rho), Gw(b[1], p, rho))
                             ELSE Win(L(b[1], p, rho), L(b[2], p, rho)) \cup Win(G(b[1], p, rho), G(b[2], p, rho))
                                  \cup Win(Lw(b[1], p, rho), Gw(b[2], p, rho)) \cup Win(Gw(b[1], p, rho), Lw(b[2], p, rho))
                IN pend' = (pend \ {b}) \cup parts
         /\ UNCHANGED <<pts, r, found, pc>>
Leaf == /\ pc = "run"
        /\ pend # {} /\ LET b == Task IN Size(b) <= BlockSize /\ pend' = pend \ {b}
             /\ found' = found \cup { Pr(x, y) : <<x, y>> \in { xy \in IF IsSelf(b) THEN b[1] \X b[1] ELSE b[1] \X b[2] :
                                                                xy[1] # xy[2] /\ D(xy[1], xy[2]) <= r } }
        /\ UNCHANGED <<pts, r, pc>>
Finish == /\ pc = "run" /\ pend = {} /\ pc' = "done"
          /\ UNCHANGED <<pts, r, pend, found>>
EmitInit == Emit => \A s \in kSubset(Count, 0..Span), x \in Radii :
              PrintT("CASE " \o ToJson([pts |-> SetToSortSeq(s, LAMBDA a, b : a < b), r |-> x]))
Next == Split \/ Leaf \/ Finish
Spec == (Init /\ EmitInit) /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Close == { p \in All \X All : p[1] < p[2] /\ D(p[1], p[2]) <= r }
\* no close pair is ever lost: it is found, or some pending task will compare it
NeverLost == \A p \in Close : p \in found \/ \E b \in pend :
               IF IsSelf(b) THEN {p[1], p[2]} \subseteq b[1]
               ELSE (p[1] \in b[1] /\ p[2] \in b[2]) \/ (p[2] \in b[1] /\ p[1] \in b[2])
Sound == found \subseteq Close
Exact == pc = "done" => found = Close
Terminates == <>(pc = "done")
=============================================================================
