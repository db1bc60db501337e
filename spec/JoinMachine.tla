----------------------------- MODULE JoinMachine -----------------------------
(***************************************************************************)
(* Hash join.  The left items are filed under each of their keys; each     *)
(* right item then visits its keys one by one and yields the left items    *)
(* filed there that it has not met yet.                                    *)
(***************************************************************************)
EXTENDS Base, Json

CONSTANTS NL, NR, K, MaxKeys, Emit
Keyings == SeqUpTo(1..K, MaxKeys)
VARIABLES lk, rk, i, h, index, met, out, pc
vars == <<lk, rk, i, h, index, met, out, pc>>
Init == /\ lk \in [1..NL -> Keyings] /\ rk \in [1..NR -> Keyings]
        /\ i = 1 /\ h = 1 /\ index = [k \in 1..K |-> <<>>] /\ met = {} /\ out = <<>> /\ pc = "index"
Index == /\ pc = "index" /\ i <= NL
         /\ index' = [k \in 1..K |-> IF k \in Ran(lk[i]) THEN Append(index[k], i) ELSE index[k]]
         /\ i' = i + 1 /\ UNCHANGED <<lk, rk, h, met, out, pc>>
Indexed == pc = "index" /\ i > NL /\ pc' = "probe" /\ i' = 1 /\ UNCHANGED <<lk, rk, h, index, met, out>>
Probe == /\ pc = "probe" /\ i <= NR /\ h <= Len(rk[i])
         /\ LET new == SelectSeq(index[rk[i][h]], LAMBDA x : x \notin met)
            IN out' = out \o [x \in DOMAIN new |-> <<new[x], i>>] /\ met' = met \cup Ran(new)
         /\ h' = h + 1 /\ UNCHANGED <<lk, rk, i, index, pc>>
NextRight == /\ pc = "probe" /\ i <= NR /\ h > Len(rk[i])
             /\ i' = i + 1 /\ h' = 1 /\ met' = {} /\ UNCHANGED <<lk, rk, index, out, pc>>
Finish == /\ pc = "probe" /\ i > NR /\ pc' = "done"
          /\ IF Emit THEN PrintT("CASE " \o ToJson([lk |-> lk, rk |-> rk])) ELSE TRUE
          /\ UNCHANGED <<lk, rk, i, h, index, met, out>>
Next == Index \/ Indexed \/ Probe \/ NextRight \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Want == { p \in (1..NL) \X (1..NR) : Ran(lk[p[1]]) \cap Ran(rk[p[2]]) # {} }
OnceEach == IsSetSeq(out)
Sound == Ran(out) \subseteq Want
Complete == pc = "done" => Ran(out) = Want
Terminates == <>(pc = "done")
=============================================================================
