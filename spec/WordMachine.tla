---------------------------- MODULE WordMachine ----------------------------
(***************************************************************************)
(* The tokenizer walking over a text, entity after entity.  Texts are all  *)
(* the concatenations of up to MaxChunks chunks of a small vocabulary rich *)
(* in apostrophes, hyphens, points, sigils and digits.                     *)
(***************************************************************************)
EXTENDS WordTok, Json
CONSTANTS Vocabulary, MaxChunks, Emit
VARIABLES s, i, out, pc
vars == <<s, i, out, pc>>
\* a A 5 . - ' @ # space
V_chars == {<<97>>, <<65>>, <<53>>, <<46>>, <<45>>, <<39>>, <<64>>, <<35>>, <<32>>}
\* n t ' s le -t- O 8 : ) , etc . hui _ http://
V_words == {<<110>>, <<116>>, <<39>>, <<115>>, <<108, 101>>, <<45>>, <<45, 116, 45>>, <<79>>, <<56>>, <<58>>, <<41>>, <<44>>, <<101, 116, 99>>, <<46>>, <<104, 117, 105>>, <<95>>, <<104, 116, 116, 112, 58, 47, 47>>, <<32>>}
TT(x) == [s |-> x, sp |-> {}, an |-> {}, al |-> {}, dg |-> {}, up |-> {}, lw |-> {}, em |-> {}]
T == TT(s)
Init == s \in { Concat(x) : x \in SeqUpTo(Vocabulary, MaxChunks) } /\ i = 1 /\ out = <<>> /\ pc = "run"
Walk == /\ pc = "run" /\ i <= Len(s)
        /\ LET r == Step(T, i) IN out' = out \o r.ts /\ i' = r.nx
        /\ UNCHANGED <<s, pc>>
End == /\ pc = "run" /\ i > Len(s) /\ pc' = "done" /\ UNCHANGED <<s, i, out>>
       /\ IF Emit THEN PrintT("CASE " \o ToJson([s |-> s])) ELSE TRUE
Spec == Init /\ [][Walk \/ End]_vars
Done == pc = "done"
Progress == [][i' # i => i' > i]_vars
Covered == SaveHyphens(Values(out), Visible(TT(Cut(T, 1, i))))
NoEmpty == \A k \in DOMAIN out : out[k][2] # <<>> /\ \A h \in DOMAIN out[k][2] : ~Sp(T, out[k][2][h])
Typed == \A k \in DOMAIN out :
  LET ty == out[k][1]
      v == out[k][2]
  IN CASE ty = "number" -> IsNumber(T, v)
       [] ty = "mention" -> Len(v) > 1 /\ v[1] = 64 /\ \A h \in 2..Len(v) : Twitter(v[h])
       [] ty = "hashtag" -> Len(v) > 1 /\ v[1] \in {35, 36} /\ Al(T, v[2]) /\ \A h \in 3..Len(v) : An(T, v[h])
       [] ty = "url" -> Take(v, 4) = Take(Http, 4)
       [] ty = "email" -> 64 \in Ran(v)
       [] ty = "punct" -> Len(v) = 1
       [] OTHER -> TRUE
\* splitting hashtags loses nothing but the sigil
HashPartition == Done => \A k \in DOMAIN out : out[k][1] = "hashtag" =>
   LET ps == SplitHashtag(T, out[k][2]) IN Values(ps) = Tail(out[k][2]) /\ \A h \in DOMAIN ps : ps[h][2] # <<>>
=============================================================================
