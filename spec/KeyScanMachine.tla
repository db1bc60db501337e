--------------------------- MODULE KeyScanMachine ---------------------------
(***************************************************************************)
(* Omission and skeleton keys built letter by letter, as fog does, against *)
(* their definition; and what makes them sorting keys for misspellings:    *)
(* they ignore case, repetition of a letter next to itself, and, for the   *)
(* omission key, the order of consonants.                                  *)
(***************************************************************************)
EXTENDS TextKeys, Json
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES s, i, vows, lets, key, cons, skv, pc
vars == <<s, i, vows, lets, key, cons, skv, pc>>
L == Letters(s, <<>>)
Init == /\ s \in SeqUpTo(Alphabet, MaxLen) /\ i = 0 /\ vows = <<>> /\ lets = {} /\ key = <<>> /\ cons = {} /\ skv = {} /\ pc = "scan"
Step == /\ pc = "scan" /\ i < Len(L) /\ i' = i + 1
        /\ LET c == L[i + 1] IN
             /\ IF c \in Vowels /\ c \notin Ran(vows) THEN vows' = Append(vows, c) /\ UNCHANGED lets
                ELSE lets' = lets \cup {c} /\ UNCHANGED vows
             /\ IF i = 0 THEN key' = <<c>> /\ UNCHANGED <<cons, skv>>
                ELSE IF c = L[1] THEN UNCHANGED <<key, cons, skv>>
                ELSE IF c \in Vowels THEN
                  /\ skv' = skv \cup {c} /\ UNCHANGED cons
                  /\ key' = IF c \in skv THEN key ELSE Append(key, c)
                ELSE /\ cons' = cons \cup {c} /\ UNCHANGED skv
                     /\ key' = IF c \in cons THEN key
                               ELSE Take(key, Len(key) - Cardinality(skv)) \o <<c>> \o Drop(key, Len(key) - Cardinality(skv))
        /\ UNCHANGED <<s, pc>>
End == /\ pc = "scan" /\ i = Len(L) /\ pc' = "done"
       /\ IF Emit THEN PrintT("CASE " \o ToJson([s |-> s])) ELSE TRUE
       /\ UNCHANGED <<s, i, vows, lets, key, cons, skv>>
Spec == Init /\ [][Step \/ End]_vars
OmissionRight == pc = "done" => Omission(L) = SelectSeq(ConsonantOrder, LAMBDA c : c \in lets) \o vows
SkeletonRight == pc = "done" => Skeleton(L) = key
IgnoresCase == pc = "done" => Omission(Letters(UpS(s), <<>>)) = Omission(L) /\ Skeleton(Letters(LoS(s), <<>>)) = Skeleton(L)
IgnoresRepeats == pc = "done" => Omission(SqueezeS(L)) = Omission(L) /\ Skeleton(SqueezeS(L)) = Skeleton(L)
SameLetters == pc = "done" => Ran(Omission(L)) = Ran(L) /\ Ran(Skeleton(L)) = Ran(L)
Unique == pc = "done" => IsSetSeq(Omission(L)) /\ IsSetSeq(Skeleton(L))
Idempotent == pc = "done" => Skeleton(Skeleton(L)) = Skeleton(L) /\ Omission(Omission(L)) = Omission(L)
=============================================================================
