---------------------------- MODULE WordOptions ----------------------------
(***************************************************************************)
(* Options of the word tokenizer: what is done to the text before, and to  *)
(* each token after the plain tokenization.  e.o holds the options, e.h    *)
(* the text (html entities decoded), e.u and e.low the transliteration and *)
(* the lower case of the code points outside ASCII.                        *)
(***************************************************************************)
EXTENDS WordTok

Text(e, x) == [s |-> x, sp |-> Ran(e.sp), an |-> Ran(e.an), al |-> Ran(e.al), dg |-> Ran(e.dg), up |-> Ran(e.up),
               lw |-> Ran(e.lw), em |-> Ran(e.em)]

LowC(e, c) == IF c < 128 THEN <<Lo(c)>> ELSE (CHOOSE p \in Ran(e.low) : p[1] = c)[2]
LowS(e, x) == Concat([k \in DOMAIN x |-> LowC(e, x[k])])
\* five repetitions of a letter or more become three
Lengthy(T, c) == (An(T, c) /\ ~Dg(T, c)) \/ c = 95
Shorten(T, x) ==
  LET run == FoldLeft(LAMBDA acc, c : IF acc # <<>> /\ Last(acc)[1] = c THEN [acc EXCEPT ![Len(acc)] = <<c, @[2] + 1>>]
                                       ELSE Append(acc, <<c, 1>>), <<>>, x)
  IN Concat([k \in DOMAIN run |-> LET n == IF run[k][2] >= 5 /\ Lengthy(T, run[k][1]) THEN 3 ELSE run[k][2]
                                   IN [h \in 1..n |-> run[k][1]]])
Prepared(e) ==
  LET a == IF e.o.unidecode THEN Ascii(e.h, e.u) ELSE e.h
  IN IF e.o.reduce THEN Shorten(Text(e, a), a) ELSE a
\* one token of the plain stream: sequence of the zero or one tokens it becomes
Filtered(e, stop, t) ==
  LET o == e.o
      ty0 == t[1]
      out == (o.keep # <<>> /\ ty0 \notin Ran(o.keep)) \/ (ty0 \in Ran(o.drop))
      v1 == IF ty0 = "mention" /\ o.norm_m THEN LowS(e, t[2])
            ELSE IF ty0 = "hashtag" /\ o.norm_h THEN Ascii(LowS(e, t[2]), e.u)
            ELSE t[2]
      asw == (ty0 = "mention" /\ o.m_as_w) \/ (ty0 = "hashtag" /\ o.h_as_w)
      ty == IF asw THEN "word" ELSE ty0
      v2 == IF asw THEN Tail(v1) ELSE v1
      v == IF ty = "word" /\ o.lower THEN LowS(e, v2) ELSE v2
  IN IF out \/ (ty = "word" /\ (Len(v) < o.min \/ (o.max > 0 /\ Len(v) > o.max))) \/ v \in stop THEN <<>>
     ELSE <<Tok(ty, v)>>
Plain(e, T) ==
  LET x == Tokens(T)
  IN IF ~e.o.split THEN x ELSE Concat([k \in DOMAIN x |-> IF x[k][1] = "hashtag" THEN SplitHashtag(T, x[k][2]) ELSE <<x[k]>>])
Stop(e) == { IF e.o.lower THEN LowS(e, w) ELSE w : w \in Ran(e.o.stop) }
WithOptions(e) ==
  LET y == Plain(e, Text(e, Prepared(e)))
      stop == Stop(e)
  IN Concat([k \in DOMAIN y |-> Filtered(e, stop, y[k])])
=============================================================================
