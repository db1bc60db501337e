------------------------- MODULE FingerprintMachine -------------------------
(***************************************************************************)
(* The fingerprint pipeline as a sequence of rewriting steps (split, drop  *)
(* digits, deburr and lower, drop the rest, trim, squeeze, tokenize), each *)
(* over the whole text, against the word-by-word definition; and what a    *)
(* fingerprint is for: it ignores case, accents, punctuation, order and    *)
(* repetition of words, and fingerprinting a fingerprint changes nothing.  *)
(***************************************************************************)
EXTENDS TextKeys, Json
CONSTANTS Alphabet, MaxLen, Emit
\* 233 = e acute, 189 = one half, 20140 = a letter with an upper case transliteration
U0 == << <<233, <<101>> >>, <<189, <<49, 47, 50>> >>, <<20140, <<74, 105, 110, 103, 32>> >> >>
VARIABLES s, o, t, stage
vars == <<s, o, t, stage>>
Options == { [keep |-> k, squeeze |-> q, split |-> p] : k \in BOOLEAN, q \in BOOLEAN, p \in {{}, {45}} }
Init == s \in SeqUpTo(Alphabet, MaxLen) /\ o \in Options /\ t = s /\ stage = "split"
To(x, y, new) == stage = x /\ stage' = y /\ t' = new /\ UNCHANGED <<s, o>>
Split == To("split", "digits", [k \in DOMAIN t |-> IF t[k] \in o.split THEN 32 ELSE t[k]])
Digits == To("digits", "lower", IF o.keep THEN t ELSE SelectSeq(t, LAMBDA c : ~IsDigit(c)))
Lower == To("lower", "deburr", LoS(t))
Deburr == To("deburr", "clean", LoS(Ascii(t, U0)))
Clean == To("clean", "squeeze", SelectSeq(t, LAMBDA c : IsLower(c) \/ c \in Space \/ (o.keep /\ IsDigit(c))))
Squeeze == To("squeeze", "done", IF o.squeeze THEN SqueezeS(t) ELSE t)
EmitCase == stage = "done" /\ stage' = "over" /\ UNCHANGED <<s, o, t>>
            /\ IF Emit THEN PrintT("CASE " \o ToJson([s |-> s, keep |-> o.keep, squeeze |-> o.squeeze, split |-> SetToSeq(o.split)])) ELSE TRUE
Next == Split \/ Digits \/ Lower \/ Deburr \/ Clean \/ Squeeze \/ EmitCase
Spec == Init /\ [][Next]_vars
Done == stage = "done"
Fp == Fingerprint(s, U0, o)
PipelineRight == Done => SortedSet(Ran(Words(t))) = Fp
IgnoresCase == Done => Fingerprint(UpS(s), U0, o) = Fp
IgnoresOrder == Done => Fingerprint(Reverse(SelectSeq(s, LAMBDA c : c \in Space)) \o JoinWith(Reverse(Words(s)), <<32>>), U0, o) = Fp
IgnoresRepetition == Done => Fingerprint(s \o <<32>> \o s, U0, o) = Fp
Idempotent == Done => Fingerprint(JoinWith(Fp, <<32>>), U0, o) = Fp
OnlyAlnum == Done => \A k \in DOMAIN Fp : \A h \in DOMAIN Fp[k] : IsLower(Fp[k][h]) \/ (o.keep /\ IsDigit(Fp[k][h]))
=============================================================================
