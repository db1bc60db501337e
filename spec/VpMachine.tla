------------------------------ MODULE VpMachine ------------------------------
(***************************************************************************)
(* Clustering with a vantage point tree.  The tree is any binary tree: a   *)
(* node holds a vantage point, a border distance mu, the items nearer than *)
(* mu on one side and the others (at mu or beyond) on the other.  A query  *)
(* for x with radius r descends a side unless the triangle inequality      *)
(* excludes it.  Items are then queried in order, unless already covered.  *)
(* The tree is not built beforehand: the machine picks vantage point and   *)
(* border when the query reaches a subset, which covers every shape.       *)
(***************************************************************************)
EXTENDS SimGraph, Json

CONSTANTS Span, Count, Radii, Bounds, Emit
VARIABLES pts, r, bnd, tree, todo, hits, nxt, visited, cl, pc
vars == <<pts, r, bnd, tree, todo, hits, nxt, visited, cl, pc>>
D(x, y) == Abs(pts[x] - pts[y])
All == 1..Count

Init == /\ pts \in { SetToSortSeq(s, LAMBDA a, b : a < b) : s \in kSubset(Count, 0..Span) }
        /\ r \in Radii /\ bnd \in Bounds
        /\ tree = <<>>                       \* subset -> <<vantage point, border>>, a function grown lazily
        /\ todo = {} /\ hits = {} /\ nxt = 1 /\ visited = {} /\ cl = <<>> /\ pc = "pick"

Pick == /\ pc = "pick"
        /\ IF nxt > Count THEN pc' = "done" /\ UNCHANGED <<todo, hits, nxt>>
           ELSE IF nxt \in visited THEN nxt' = nxt + 1 /\ UNCHANGED <<todo, hits, pc>>
           ELSE todo' = {All} /\ hits' = {} /\ pc' = "query" /\ UNCHANGED nxt
        /\ UNCHANGED <<pts, r, bnd, tree, visited, cl>>
Near(S, v, mu) == { y \in S \ {v} : D(v, y) < mu }
Far(S, v, mu) == { y \in S \ {v} : D(v, y) >= mu }
Descend == /\ pc = "query" /\ todo # {}
           /\ LET S == CHOOSE t \in todo : TRUE
              IN \E v \in S : \E mu \in { D(v, y) : y \in S \ {v} } \cup {0} :
                   /\ (\A k \in DOMAIN tree : tree[k][1] = S => tree[k][2] = v /\ tree[k][3] = mu)
                   /\ tree' = IF \E k \in DOMAIN tree : tree[k][1] = S THEN tree ELSE Append(tree, <<S, v, mu>>)
                   /\ LET d == D(nxt, v)
                      IN /\ hits' = IF d <= r THEN hits \cup {v} ELSE hits
                         /\ todo' = (todo \ {S})
                              \cup (IF Near(S, v, mu) # {} /\ d < mu + r THEN {Near(S, v, mu)} ELSE {})
                              \cup (IF Far(S, v, mu) # {} /\ d >= mu - r THEN {Far(S, v, mu)} ELSE {})
           /\ UNCHANGED <<pts, r, bnd, nxt, visited, cl, pc>>
Answered == /\ pc = "query" /\ todo = {}
            /\ IF InBounds(Cardinality(hits), bnd[1], bnd[2])
               THEN visited' = visited \cup hits /\ cl' = Append(cl, SetToSeq(hits))
               ELSE UNCHANGED <<visited, cl>>
            /\ nxt' = nxt + 1 /\ pc' = "pick"
            /\ UNCHANGED <<pts, r, bnd, tree, todo, hits>>
Next == Pick \/ Descend \/ Answered
EmitInit == Emit => \A s \in kSubset(Count, 0..Span), x \in Radii, b \in Bounds :
              PrintT("CASE " \o ToJson([pts |-> SetToSortSeq(s, LAMBDA p, q : p < q), r |-> x, mn |-> b[1], mx |-> b[2]]))
Spec == (Init /\ EmitInit) /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
A == [x \in All |-> { y \in All : y # x /\ D(x, y) <= r }]
\* whatever the tree, no member of the ball is pruned: it was hit or lies in a subset still to visit
NeverPruned == pc = "query" => \A y \in Ball(A, nxt) : y \in hits \/ \E S \in todo : y \in S
HitsSound == pc = "query" => hits \subseteq Ball(A, nxt)
Answer == pc = "done" => FuzzyAnswer(A, bnd[1], bnd[2], cl, FALSE) = {}
=============================================================================
