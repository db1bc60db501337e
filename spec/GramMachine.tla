----------------------------- MODULE GramMachine -----------------------------
(* The sliding window over a sequence; its inverse; the n-gram keys.         *)
EXTENDS TextKeys, Json
CONSTANTS Alphabet, MaxLen, MaxN, Emit
VARIABLES s, n, i, out, pc
vars == <<s, n, i, out, pc>>
Init == s \in SeqUpTo(Alphabet, MaxLen) /\ n \in 1..MaxN /\ i = 0 /\ out = <<>> /\ pc = "run"
Whole == pc = "run" /\ Len(s) < n /\ i = 0 /\ out = <<>> /\ out' = <<s>> /\ i' = 1 /\ UNCHANGED <<s, n, pc>>
Slide == pc = "run" /\ i < Len(s) - n + 1 /\ out' = Append(out, SubSeq(s, i + 1, i + n)) /\ i' = i + 1 /\ UNCHANGED <<s, n, pc>>
End == /\ pc = "run" /\ (IF Len(s) < n THEN i = 1 ELSE i = Len(s) - n + 1)
       /\ pc' = "done" /\ UNCHANGED <<s, n, i, out>>
       /\ IF Emit THEN PrintT("CASE " \o ToJson([s |-> s, n |-> n])) ELSE TRUE
Spec == Init /\ [][Whole \/ Slide \/ End]_vars
Right == pc = "done" => out = Grams(n, s)
JoinInverse == pc = "done" => JoinGrams(out) = s
NeverEmpty == pc = "done" => out # <<>>
\* the keys always hold the whole text's grams, and lowering the threshold only adds keys
KeysGrow == pc = "done" => /\ Concat(out) \in GramKeys(n, s, 1, 1)
                           /\ GramKeys(n, s, 3, 4) \subseteq GramKeys(n, s, 1, 2)
                           /\ GramKeys(n, s, 1, 2) \subseteq GramKeys(n, s, 1, 4)
=============================================================================
