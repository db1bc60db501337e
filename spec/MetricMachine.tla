---------------------------- MODULE MetricMachine ----------------------------
(***************************************************************************)
(* One-pass computation of the metrics: swap so that the smaller operand   *)
(* is scanned (its tokens in any order), look the other one up, then       *)
(* finish with what only the other operand holds.                          *)
(***************************************************************************)
EXTENDS Numeric, Json

CONSTANTS Tokens, Weights, Emit

WSets == UNION { [d -> Weights] : d \in SUBSET Tokens }

VARIABLES f, g, x, y, todo, done, inter, uni, dot, nx, ny, bin, pc
vars == <<f, g, x, y, todo, done, inter, uni, dot, nx, ny, bin, pc>>

Init == /\ f \in WSets /\ g \in WSets
        /\ (IF Cardinality(DOMAIN f) > Cardinality(DOMAIN g) THEN x = g /\ y = f ELSE x = f /\ y = g)
        /\ todo = DOMAIN x /\ done = {} /\ inter = 0 /\ uni = 0 /\ dot = 0 /\ nx = 0 /\ ny = 0 /\ bin = 0
        /\ pc = "scan"

Scan == /\ pc = "scan" /\ todo # {}
        /\ \E t \in todo :
             /\ todo' = todo \ {t}
             /\ done' = IF W(y, t) # 0 THEN done \cup {t} ELSE done
             /\ inter' = inter + Mn(x[t], W(y, t))
             /\ uni' = uni + Mx(x[t], W(y, t))
             /\ dot' = dot + x[t] * W(y, t)
             /\ nx' = nx + x[t] * x[t]
             /\ bin' = bin + IF t \in DOMAIN y THEN 1 ELSE 0
        /\ UNCHANGED <<f, g, x, y, ny, pc>>
Turn == /\ pc = "scan" /\ todo = {} /\ pc' = "finish" /\ todo' = DOMAIN y
        /\ UNCHANGED <<f, g, x, y, done, inter, uni, dot, nx, ny, bin>>
Finish == /\ pc = "finish" /\ todo # {}
          /\ \E t \in todo : /\ todo' = todo \ {t}
                             /\ ny' = ny + y[t] * y[t]
                             /\ uni' = IF t \in done THEN uni ELSE uni + y[t]
          /\ UNCHANGED <<f, g, x, y, done, inter, dot, nx, bin, pc>>
End == /\ pc = "finish" /\ todo = {} /\ pc' = "done"
       /\ IF Emit THEN PrintT("CASE " \o ToJson([a |-> [k \in 1..Cardinality(DOMAIN f) |-> <<SetToSeq(DOMAIN f)[k], f[SetToSeq(DOMAIN f)[k]]>>],
                                                 b |-> [k \in 1..Cardinality(DOMAIN g) |-> <<SetToSeq(DOMAIN g)[k], g[SetToSeq(DOMAIN g)[k]]>>]])) ELSE TRUE
       /\ UNCHANGED <<f, g, x, y, todo, done, inter, uni, dot, nx, ny, bin>>
Next == Scan \/ Turn \/ Finish \/ End
Spec == Init /\ [][Next]_vars

WeightedRight == pc = "done" => WJ(f, g) = IF uni = 0 THEN <<0, 1>> ELSE Rt(inter, uni)
CosineRight == pc = "done" => Cos2(f, g) = IF nx * ny = 0 THEN <<0, 1>> ELSE Rt(dot * dot, nx * ny)
SetsRight == pc = "done" /\ DOMAIN f # {} /\ DOMAIN g # {} =>
  /\ Jaccard(DOMAIN f, DOMAIN g) = Rt(bin, Cardinality(DOMAIN x) + Cardinality(DOMAIN y) - bin)
  /\ Overlap(DOMAIN f, DOMAIN g) = Rt(bin, Cardinality(DOMAIN x))
  /\ Dice(DOMAIN f, DOMAIN g) = Rt(2 * bin, Cardinality(DOMAIN x) + Cardinality(DOMAIN y))
\* laws a user relies on
Laws == pc = "done" =>
  /\ WJ(f, g) = WJ(g, f) /\ RLeq(WJ(f, g), <<1, 1>>)
  /\ RLeq(Cos2(f, g), <<1, 1>>)
  /\ RLeq(Jaccard(DOMAIN f, DOMAIN g), Dice(DOMAIN f, DOMAIN g))
  /\ RLeq(Dice(DOMAIN f, DOMAIN g), Overlap(DOMAIN f, DOMAIN g))
=============================================================================
