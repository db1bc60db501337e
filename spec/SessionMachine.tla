--------------------------- MODULE SessionMachine ---------------------------
(* Every interleaving of two such users, up to MaxActs acts.               *)
EXTENDS Sessions, Json
CONSTANTS MaxActs, MaxOpen, MaxAnswers, Emit
VARIABLES ans, at, acts, seen
vars == <<ans, at, acts, seen>>
Users == {1, 2}
Init == /\ ans \in [Users -> { [k \in 1..n |-> k] : n \in 0..MaxAnswers }]
        /\ at = [c \in Users |-> Closed] /\ acts = <<>> /\ seen = [c \in Users |-> <<>>]
Opened(c) == Cardinality({ k \in DOMAIN acts : acts[k] = <<"open", c>> })
Act(a) == /\ Len(acts) < MaxActs /\ acts' = Append(acts, a) /\ UNCHANGED ans
          /\ at' = Effect(ans, at, a)
          /\ seen' = [seen EXCEPT ![a[2]] = IF a[1] = "open" THEN <<>>
                                            ELSE IF a[1] = "next" THEN Append(@, Answer(ans, at, a[2])) ELSE @]
Open(c) == CanOpen(at, c) /\ Opened(c) < MaxOpen /\ Act(<<"open", c>>)
NextOf(c) == CanNext(at, c) /\ Act(<<"next", c>>)
DropIt(c) == CanDrop(at, c) /\ Act(<<"drop", c>>)
End == /\ Len(acts) = MaxActs /\ IF Emit THEN PrintT("CASE " \o ToJson([acts |-> acts, n |-> [c \in Users |-> Len(ans[c])]])) ELSE TRUE
       /\ UNCHANGED vars
Next == End \/ \E c \in Users : Open(c) \/ NextOf(c) \/ DropIt(c)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
\* what a user saw since it opened its call: the answers to its input, in order, then the end once
Isolated == \A c \in Users : \E k \in 0..Len(ans[c]) :
  seen[c] = Take(ans[c], k) \/ (k = Len(ans[c]) /\ seen[c] = Append(ans[c], Finished))
\* the acts of the other user can be taken away
RECURSIVE Replay(_, _, _)
Replay(as, k, st) ==
  IF k > Len(as) THEN st
  ELSE Replay(as, k + 1, [at |-> Effect(ans, st.at, as[k]),
                          out |-> IF as[k][1] = "open" THEN <<>> ELSE IF as[k][1] = "next" THEN Append(st.out, Answer(ans, st.at, as[k][2])) ELSE st.out])
Alone == \A c \in Users :
  Replay(SelectSeq(acts, LAMBDA a : a[2] = c), 1, [at |-> [u \in Users |-> Closed], out |-> <<>>]).out = seen[c]
=============================================================================
