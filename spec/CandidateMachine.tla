------------------------- MODULE CandidateMachine -------------------------
(***************************************************************************)
(* Items are read in order.  In mode "lists" the dimensions of an item are *)
(* considered in any order: the items filed under one are met, unless met  *)
(* already, then the item is filed there.  In mode "leaders" some leaders  *)
(* were drawn: the item goes under one that no other leader is closer to,  *)
(* and meets those already there.                                          *)
(***************************************************************************)
EXTENDS Candidates, Json

CONSTANTS Dims, Count0, Weights, Modes, Emit
VARIABLES vs, mode, leaders, nxt, left, filed, met, out, lead, pc
vars == <<vs, mode, leaders, nxt, left, filed, met, out, lead, pc>>

Vectors == UNION { [d -> Weights] : d \in SUBSET Dims }
Init == /\ vs \in [1..Count0 -> Vectors] /\ mode \in Modes
        /\ leaders \in IF mode = "leaders" THEN { s \in SUBSET (1..Count0) : Cardinality(s) = ISqrt(Count0) } ELSE {{}}
        /\ nxt = 1 /\ left = DOMAIN vs[1] /\ filed = [d \in Dims |-> {}] /\ met = {} /\ out = <<>> /\ lead = <<>> /\ pc = "read"
Meet(d) == /\ pc = "read" /\ mode = "lists" /\ d \in left /\ left' = left \ {d}
           /\ met' = met \cup filed[d]
           /\ out' = out \o SetToSeq({ <<nxt, j>> : j \in filed[d] \ met })
           /\ filed' = [filed EXCEPT ![d] = @ \cup {nxt}]
           /\ UNCHANGED <<vs, mode, leaders, nxt, lead, pc>>
Join(l) == /\ pc = "read" /\ mode = "leaders" /\ l \in leaders /\ Len(lead) < nxt
           /\ \A m \in leaders : AsClose(vs, nxt, l, m)
           /\ lead' = Append(lead, l)
           /\ out' = out \o LeaderPairs(lead', nxt)
           /\ left' = {}
           /\ UNCHANGED <<vs, mode, leaders, nxt, filed, met, pc>>
Advance == /\ pc = "read" /\ IF mode = "lists" THEN left = {} ELSE Len(lead) = nxt
           /\ IF nxt = Count0 THEN /\ pc' = "done" /\ UNCHANGED <<nxt, left>>
                                   /\ IF Emit THEN PrintT("CASE " \o ToJson([mode |-> mode, vs |-> [k \in 1..Count0 |-> { <<d, vs[k][d]>> : d \in DOMAIN vs[k] }]])) ELSE TRUE
              ELSE nxt' = nxt + 1 /\ left' = DOMAIN vs[nxt + 1] /\ UNCHANGED pc
           /\ met' = {}
           /\ UNCHANGED <<vs, mode, leaders, filed, out, lead>>
Next == (\E d \in Dims : Meet(d)) \/ (\E l \in leaders : Join(l)) \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Once == IsSetSeq(out) \/ mode = "leaders"
ListsExact == pc = "done" /\ mode = "lists" => Ran(out) = SharedPairs(vs)
LeadersGood == pc = "done" /\ mode = "leaders" => GoodLeaders(vs, lead)
\* two items of one leader are met, whichever came first
Together == pc = "done" /\ mode = "leaders" =>
  \A i, j \in 1..Count0 : j < i /\ lead[i] = lead[j] => <<i, j>> \in Ran(out)
=============================================================================
