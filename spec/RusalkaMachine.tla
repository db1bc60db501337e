--------------------------- MODULE RusalkaMachine ---------------------------
(* The rewriting rules of Rusalka applied one after the other.               *)
EXTENDS Phonetics, Json
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES s, x, r, out, pc
vars == <<s, x, r, out, pc>>
N(y) == [s |-> y, up |-> <<>>, low |-> <<>>, u |-> <<>>]
Init == s \in SeqUpTo(Alphabet, MaxLen) /\ x = RusLetters(N(s)) /\ r = 0 /\ out = <<>> /\ pc = "run"
Rule == /\ pc = "run" /\ Len(RusLetters(N(s))) >= 2 /\ r < RusRules /\ r' = r + 1 /\ x' = Rewrite(r + 1, x, 1) /\ UNCHANGED <<s, out, pc>>
End == /\ pc = "run" /\ (r = RusRules \/ Len(RusLetters(N(s))) < 2) /\ pc' = "done"
       /\ out' = IF r = 0 THEN x ELSE RusFinish(x)
       /\ IF Emit THEN PrintT("CASE " \o ToJson([s |-> s])) ELSE TRUE
       /\ UNCHANGED <<s, x, r>>
Spec == Init /\ [][Rule \/ End]_vars
Done == pc = "done"
Right == Done => out = Rusalka(N(s))
IgnoresCase == Done => Rusalka(N(UpS(s))) = out
Swap(c, w) == Concat([k \in DOMAIN s |-> IF s[k] = c THEN w ELSE <<s[k]>>])
\* v, w, f and ph are the same sound
SameF == Done /\ Len(RusLetters(N(s))) >= 2 => Rusalka(N(Swap(118, <<119>>))) = out /\ Rusalka(N(Swap(118, <<102>>))) = out /\ Rusalka(N(Swap(118, <<112, 104>>))) = out
NoVowels == Done /\ Len(RusLetters(N(s))) >= 2 => \A k \in 2..Len(out) : out[k] \notin RusVowels
Rewritten == r >= 10 => \A k \in DOMAIN x : x[k] \notin {104, 99, 103, 118, 119}
=============================================================================
