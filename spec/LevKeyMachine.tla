--------------------------- MODULE LevKeyMachine ---------------------------
(***************************************************************************)
(* Two strings edited apart step by step: the machine starts from equal    *)
(* strings and applies up to two edits to the second one, in every way.    *)
(* After one edit both strings share a 1D key and a 1D block, after two a  *)
(* 2D block (transpositions included for the Damerau schemes).             *)
(***************************************************************************)
EXTENDS LevKeys, Json
CONSTANTS Alphabet, MaxLen, MaxEdits, Emit
VARIABLES a, b, edits, swaps
vars == <<a, b, edits, swaps>>
Init == a \in SeqUpTo(Alphabet, MaxLen) /\ b = a /\ edits = 0 /\ swaps = 0
Case == IF Emit THEN PrintT("CASE " \o ToJson([a |-> a, b |-> b'])) ELSE TRUE
Insert == \E p \in 0..Len(b), c \in Alphabet : b' = Take(b, p) \o <<c>> \o Drop(b, p)
Delete == \E p \in DOMAIN b : b' = DeleteAt(b, p)
Subst == \E p \in DOMAIN b, c \in Alphabet : b' = [b EXCEPT ![p] = c]
Swap == \E p \in 1..(Len(b) - 1) : b' = SwapAt(b, p)
Next == /\ edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED a
        /\ \/ (Insert \/ Delete \/ Subst) /\ UNCHANGED swaps
           \/ Swap /\ swaps' = swaps + 1
        /\ b' # b /\ Case
Spec == Init /\ [][Next]_vars
D == IF swaps = 0 THEN Lev(a, b) ELSE Osa(a, b)
Reach == swaps = 0 => Lev(a, b) <= edits
\* the textbook neighbourhood is exact
FullKeysExact == swaps = 0 => (Meet(FullKeys1(a), FullKeys1(b)) <=> Lev(a, b) <= 1)
\* fog's neighbourhood: sound, and complete but for the known class
KeysSound == Meet(Keys1(a), Keys1(b)) => Lev(a, b) <= 1
KeysComplete == Lte1(a, b) => Meet(Keys1(a), Keys1(b)) \/ Doubled(a, b)
DamKeysComplete == DamLte1(a, b) => Meet(Keys1D(a), Keys1D(b)) \/ Doubled(a, b)
DamKeysSound == Meet(Keys1D(a), Keys1D(b)) => Osa(a, b) <= 2
KnownIsMissed == Doubled(a, b) => ~Meet(Keys1(a), Keys1(b))
Blocks1Complete == Lte1(a, b) => Meet(Blocks1(a, FALSE), Blocks1(b, FALSE))
DamBlocks1Complete == DamLte1(a, b) => Meet(Blocks1(a, TRUE), Blocks1(b, TRUE))
Blocks2Complete == Lev(a, b) <= 2 => Meet(Blocks2(a, FALSE), Blocks2(b, FALSE))
DamBlocks2Complete == Osa(a, b) <= 2 => Meet(Blocks2(a, TRUE), Blocks2(b, TRUE))
=============================================================================
