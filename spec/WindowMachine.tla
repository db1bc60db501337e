---------------------------- MODULE WindowMachine ----------------------------
(***************************************************************************)
(* Sorted neighbourhood, fixed ("snm") and adaptive ("asnm") windows.      *)
(* The data is sorted (stable) by a key; the fixed window slides over it,  *)
(* the adaptive one grows by jumps while its ends are similar, drops its   *)
(* unlike tail and starts again after it.                                  *)
(***************************************************************************)
EXTENDS Neighborhood, Json

CONSTANTS N, Ws, Ranks, Kinds, Emit
AllPairs == { p \in (1..N) \X (1..N) : p[1] < p[2] }

VARIABLES kind, E, ks, w, f, first, last, i, wins, pairs, pc
vars == <<kind, E, ks, w, f, first, last, i, wins, pairs, pc>>
S == SortedBy(ks)
Sim(x, y) == Pr(S[x], S[y]) \in E

Init == /\ kind \in Kinds /\ E \in SUBSET AllPairs /\ ks \in [1..N -> 1..Ranks] /\ w \in Ws
        /\ (kind = "asnm" => w >= 2)
        /\ f = 1 /\ first = 1 /\ last = w /\ i = 1 /\ wins = <<>> /\ pairs = {}
        /\ pc = IF kind = "snm" THEN "slide" ELSE "grow"
EmitCase == IF Emit THEN PrintT("CASE " \o ToJson([kind |-> kind, n |-> N, e |-> SetToSeq(E), keys |-> <<ks>>, w |-> w])) ELSE TRUE

Slide == /\ pc = "slide" /\ i <= N
         /\ pairs' = pairs \cup { Pr(S[i], S[j]) : j \in { x \in (i + 1)..Mn(N, i + w - 1) : Sim(i, x) } }
         /\ i' = i + 1
         /\ UNCHANGED <<kind, E, ks, w, f, first, last, wins, pc>>
Slid == /\ pc = "slide" /\ i > N /\ pc' = "done" /\ EmitCase
        /\ UNCHANGED <<kind, E, ks, w, f, first, last, i, wins, pairs>>

\* the adaptive window [f, last]
Enlargement ==
        /\ pc = "grow"
        /\ IF last > N /\ first = f
           THEN \* less than a base window is left: it is the last window
                /\ pc' = "solve"
                /\ wins' = IF first <= N THEN Append(wins, <<first, N>>) ELSE wins
                /\ UNCHANGED <<first, last>>
           ELSE IF last <= N /\ Sim(first, last)
           THEN first' = last /\ last' = last + (last - f) /\ UNCHANGED <<pc, wins>>
           ELSE last' = Mn(last, N) /\ pc' = "shrink" /\ UNCHANGED <<first, wins>>
        /\ UNCHANGED <<kind, E, ks, w, f, i, pairs>>
Shrink == /\ pc = "shrink"
          /\ IF last - f + 1 > w /\ ~Sim(last - 1, last)
             THEN last' = last - 1 /\ UNCHANGED <<f, first, wins, pc>>
             ELSE /\ wins' = Append(wins, <<f, last>>)
                  /\ f' = last + 1 /\ first' = last + 1 /\ last' = last + w /\ pc' = "grow"
          /\ UNCHANGED <<kind, E, ks, w, i, pairs>>
Solve == /\ pc = "solve" /\ i <= Len(wins)
         /\ pairs' = pairs \cup { Pr(S[p[1]], S[p[2]]) : p \in
                       { q \in (wins[i][1]..wins[i][2]) \X (wins[i][1]..wins[i][2]) : q[1] < q[2] /\ Sim(q[1], q[2]) } }
         /\ i' = i + 1
         /\ UNCHANGED <<kind, E, ks, w, f, first, last, wins, pc>>
Solved == /\ pc = "solve" /\ i > Len(wins) /\ pc' = "done" /\ EmitCase
          /\ UNCHANGED <<kind, E, ks, w, f, first, last, i, wins, pairs>>
Next == Slide \/ Slid \/ Enlargement \/ Shrink \/ Solve \/ Solved
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Answer == pc = "done" => pairs = E \cap IF kind = "snm" THEN WindowPairs(ks, w) ELSE AdaptivePairs(ks, w, E)
\* the adaptive windows tile the data, none smaller than the base but the last
Tiling == kind = "asnm" /\ pc \in {"solve", "done"} =>
  /\ Concat([k \in DOMAIN wins |-> [x \in 1..(wins[k][2] - wins[k][1] + 1) |-> wins[k][1] + x - 1]]) = Iota(N)
  /\ \A k \in 1..(Len(wins) - 1) : wins[k][2] - wins[k][1] + 1 >= w
\* the window never looks past the data when it compares
InRange == pc = "shrink" => last <= N /\ last >= f
\* a larger window compares at least as much
Monotone == pc = "done" /\ kind = "snm" => WindowPairs(ks, w) \subseteq WindowPairs(ks, w + 1)
Terminates == <>(pc = "done")
=============================================================================
