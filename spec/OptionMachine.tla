--------------------------- MODULE OptionMachine ---------------------------
(***************************************************************************)
(* The plain stream of tokens going through the options one token at a     *)
(* time, for every choice of options of a small set.                       *)
(***************************************************************************)
EXTENDS WordOptions, Json
CONSTANTS MaxChunks, Emit
VARIABLES e, k, out, pc
vars == <<e, k, out, pc>>
\* Ab  #AbC1  @Ab_  aaaaa  12  !  space
Vocabulary == {<<65, 98>>, <<35, 65, 98, 67, 49>>, <<64, 65, 98, 95>>, <<97, 97, 97, 97, 97>>, <<49, 50>>, <<33>>, <<32>>}
Options == [lower : BOOLEAN, unidecode : {FALSE}, reduce : BOOLEAN, html : {FALSE}, norm_m : {FALSE}, norm_h : BOOLEAN,
            m_as_w : BOOLEAN, h_as_w : {FALSE}, split : BOOLEAN, min : {0, 3}, max : {0, 4},
            stop : {<<>>, << <<97, 98>> >>}, keep : {<<>>, <<"word", "hashtag">>}, drop : {<<>>}]
           \cup [lower : BOOLEAN, unidecode : {FALSE}, reduce : {FALSE}, html : {FALSE}, norm_m : BOOLEAN, norm_h : {FALSE},
            m_as_w : BOOLEAN, h_as_w : BOOLEAN, split : {FALSE}, min : {0}, max : {0, 2},
            stop : {<<>>, << <<65, 98>> >>}, keep : {<<>>}, drop : {<<"punct">>, <<"mention">>}]
None == [sp |-> <<>>, an |-> <<>>, al |-> <<>>, dg |-> <<>>, up |-> <<>>, lw |-> <<>>, em |-> <<>>, low |-> <<>>, u |-> <<>>]
Init == /\ \E x \in SeqUpTo(Vocabulary, MaxChunks), o \in Options : e = None @@ [h |-> Concat(x), o |-> o]
        /\ k = 0 /\ out = <<>> /\ pc = "run"
Src == Plain(e, Text(e, Prepared(e)))
Feed == /\ pc = "run" /\ k < Len(Src) /\ k' = k + 1 /\ out' = out \o Filtered(e, Stop(e), Src[k + 1]) /\ UNCHANGED <<e, pc>>
End == /\ pc = "run" /\ k = Len(Src) /\ pc' = "done" /\ UNCHANGED <<e, k, out>>
       /\ IF Emit THEN PrintT("CASE " \o ToJson([s |-> e.h, o |-> e.o])) ELSE TRUE
Spec == Init /\ [][Feed \/ End]_vars
Done == pc = "done"
Right == Done => out = WithOptions(e)
Bounded == \A h \in DOMAIN out : out[h][1] = "word" => Len(out[h][2]) >= e.o.min /\ (e.o.max = 0 \/ Len(out[h][2]) <= e.o.max)
NoStop == \A h \in DOMAIN out : out[h][2] \notin Stop(e)
OnlyKept == \A h \in DOMAIN out : /\ e.o.keep # <<>> => out[h][1] \in Ran(e.o.keep)
                                  /\ out[h][1] \notin Ran(e.o.drop)
Shorter == Len(out) <= k
Lowered == e.o.lower => \A h \in DOMAIN out : out[h][1] = "word" => LoS(out[h][2]) = out[h][2]
NoMention == e.o.m_as_w => \A h \in DOMAIN out : out[h][1] # "mention"
NoHashtag == e.o.split => \A h \in DOMAIN out : out[h][1] # "hashtag"
=============================================================================
