----------------------------- MODULE MeanMachine -----------------------------
(* Histories of two online means and their sum: adding and subtracting     *)
(* values, merging in place, adding into a third.                          *)
EXTENDS Numeric, Json
CONSTANTS Values, Depth, Emit
Ops == { <<"add", r, v>> : r \in 1..2, v \in Values } \cup { <<"sub", r, v>> : r \in 1..2, v \in Values }
       \cup { <<"iadd", r, q>> : r \in 1..2, q \in 1..2 } \cup { <<"plus", 1, 2>>, <<"plus", 2, 1>>, <<"plus", 1, 1>> }
VARIABLES regs, hist, bags
vars == <<regs, hist, bags>>
\* bags: how often each value was added minus how often it was subtracted, per register
Zero == [v \in Values |-> 0]
Init == regs = <<<<0, 0>>, <<0, 0>>, <<0, 0>>>> /\ hist = <<>> /\ bags = <<Zero, Zero, Zero>>
BagStep(o) == CASE o[1] = "add" -> [bags EXCEPT ![o[2]][o[3]] = @ + 1]
                [] o[1] = "sub" -> IF MeanRefused(regs, o) THEN bags ELSE [bags EXCEPT ![o[2]][o[3]] = @ - 1]
                [] o[1] = "iadd" -> [bags EXCEPT ![o[2]] = [v \in Values |-> @[v] + bags[o[3]][v]]]
                [] OTHER -> [bags EXCEPT ![3] = [v \in Values |-> bags[o[2]][v] + bags[o[3]][v]]]
Step == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ regs' = MeanStep(regs, o) /\ hist' = Append(hist, o) /\ bags' = BagStep(o)
        /\ IF Emit /\ Len(hist') = Depth THEN PrintT("CASE " \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Step]_vars
\* a register always summarises the multiset of values it was given
Summarises == \A r \in 1..3 :
  /\ regs[r][1] = FoldLeft(LAMBDA acc, v : acc + v * bags[r][v], 0, SetToSeq(Values))
  /\ regs[r][2] = FoldLeft(LAMBDA acc, v : acc + bags[r][v], 0, SetToSeq(Values))
NeverNegative == \A r \in 1..3 : regs[r][2] >= 0
=============================================================================
