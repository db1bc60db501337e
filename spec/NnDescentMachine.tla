-------------------------- MODULE NnDescentMachine --------------------------
(***************************************************************************)
(* NN-Descent: every item keeps a heap of k neighbours drawn at random; in *)
(* rounds, an item looks at the neighbours (both ways) of its neighbours   *)
(* and replaces the worst of its own by a strictly better one.  A round    *)
(* without replacement ends the search.  A neighbour is listed once.       *)
(* Points live on a line; similarity is the opposite of the distance.      *)
(***************************************************************************)
EXTENDS SimGraph, Json

CONSTANTS Span, Count, K, Radii, Emit
VARIABLES pts, r, B, C, i, c, pc
vars == <<pts, r, B, C, i, c, pc>>
All == 1..Count
D(x, y) == Abs(pts[x] - pts[y])
\* heaps as sequences sorted by decreasing distance: the worst first
Sorted(x, js) == SortSeq(js, LAMBDA a, b : D(x, a) > D(x, b) \/ (D(x, a) = D(x, b) /\ a < b))

Init == /\ pts \in { SetToSortSeq(s, LAMBDA a, b : a < b) : s \in kSubset(Count, 0..Span) } /\ r \in Radii
        /\ B \in { f \in [All -> { Sorted(1, SetToSeq(s)) : s \in kSubset(K, All) }] : \A x \in All : x \notin Ran(f[x]) }
        /\ C = <<>> /\ i = 0 /\ c = 1 /\ pc = "round"
StartRound == /\ pc = "round"
              /\ IF c = 0 THEN pc' = "done" /\ UNCHANGED <<C, i, c>>
                 ELSE /\ C' = [x \in All |-> Ran(B[x]) \cup { y \in All : x \in Ran(B[y]) }]
                      /\ i' = 1 /\ c' = 0 /\ pc' = "scan"
              /\ UNCHANGED <<pts, r, B>>
\* item i considers its candidates one after the other (order irrelevant for what is checked)
RECURSIVE Improve(_, _, _)
Improve(x, st, cands) ==       \* st = <<heap, replacements>>
  IF cands = {} THEN st
  ELSE LET y == CHOOSE z \in cands : TRUE
           h == Sorted(x, st[1])
       IN Improve(x, IF D(x, y) < D(x, h[1]) /\ y \notin Ran(h) THEN <<Sorted(x, Append(Tail(h), y)), st[2] + 1>> ELSE <<h, st[2]>>, cands \ {y})
Scan == /\ pc = "scan"
        /\ LET st == Improve(i, <<B[i], 0>>, UNION { C[y] : y \in C[i] } \ {i})
           IN B' = [B EXCEPT ![i] = st[1]] /\ c' = c + st[2]
        /\ IF i = Count THEN pc' = "round" /\ UNCHANGED i ELSE i' = i + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<pts, r, C>>
Next == StartRound \/ Scan
EmitInit == Emit => \A s \in kSubset(Count, 0..Span), x \in Radii :
              PrintT("CASE " \o ToJson([pts |-> SetToSortSeq(s, LAMBDA a, b : a < b), r |-> x, k |-> K]))
Spec == (Init /\ EmitInit) /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
\* an item is never its own neighbour and always keeps k of them
Heaps == \A x \in All : Len(B[x]) = K /\ IsSetSeq(B[x]) /\ x \notin Ran(B[x])
\* the variant of termination: the total distance to the neighbours, bounded below
Total == SumSeq([x \in All |-> SumSeq([h \in 1..K |-> D(x, B[x][h])])])
Decreases == [][Total' < Total \/ (Total' = Total /\ \A x \in All : SameBag(B[x], B'[x]))]_vars
Links == { p \in All \X All : p[1] < p[2] /\ (p[2] \in Ran(B[p[1]]) \/ p[1] \in Ran(B[p[2]])) /\ D(p[1], p[2]) <= r }
Sound == pc = "done" => \A p \in Links : D(p[1], p[2]) <= r
\* with a neighbour list as long as the data nothing can be missed
ExactWhenFull == pc = "done" /\ K = Count - 1 => Links = { p \in All \X All : p[1] < p[2] /\ D(p[1], p[2]) <= r }
Terminates == <>(pc = "done")
=============================================================================
