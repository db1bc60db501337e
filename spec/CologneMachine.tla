--------------------------- MODULE CologneMachine ---------------------------
(***************************************************************************)
(* The Cologne code emitted letter by letter, by an automaton that knows   *)
(* the previous letter and peeks at the next one and never stores a zero   *)
(* nor a repeated digit, against the definition on the whole name.         *)
(***************************************************************************)
EXTENDS Phonetics, Json
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES s, k, prev, last, code, pc
vars == <<s, k, prev, last, code, pc>>
N(x) == [s |-> x, up |-> <<>>, low |-> <<>>, u |-> <<>>]
X == ColLetters(N(s))
Init == s \in SeqUpTo(Alphabet, MaxLen) /\ k = 0 /\ prev = 0 /\ last = -1 /\ code = <<>> /\ pc = "run"
\* digits to push given what was pushed last
Push(ds) == FoldLeft(LAMBDA acc, d : [code |-> IF d = acc.last \/ (d = 0 /\ acc.last # -1) THEN acc.code ELSE Append(acc.code, d), last |-> d],
                     [code |-> code, last |-> last], ds)
Letter == /\ pc = "run" /\ k < Len(X) /\ k' = k + 1
          /\ LET p == Push(ColCode(X, k + 1)) IN code' = p.code /\ last' = p.last
          /\ prev' = X[k + 1] /\ UNCHANGED <<s, pc>>
End == /\ pc = "run" /\ k = Len(X) /\ pc' = "done" /\ UNCHANGED <<s, k, prev, last, code>>
       /\ IF Emit THEN PrintT("CASE " \o ToJson([s |-> s])) ELSE TRUE
Spec == Init /\ [][Letter \/ End]_vars
Done == pc = "done"
Right == Done => code = Cologne(N(s))
IgnoresCase == Done => Cologne(N(LoS(s))) = code /\ Cologne(N(UpS(s))) = code
Digits == \A h \in DOMAIN code : code[h] \in {0, 1, 2, 3, 4, 5, 6, 7, 8} /\ (code[h] = 0 => h = 1)
EmptyOnlyWithoutLetters == Done => (code = <<>> <=> \A h \in DOMAIN X : X[h] = 72)
=============================================================================
