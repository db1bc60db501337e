----------------------------- MODULE Phonetics -----------------------------
(***************************************************************************)
(* The Cologne code of a name and its Rusalka form.  A name n is a record: *)
(* s the code points; up, low, u the upper case, lower case and ASCII      *)
(* transliteration of the ones outside ASCII (of either case).             *)
(***************************************************************************)
EXTENDS TextKeys

Look(tab, c) == (CHOOSE p \in Ran(tab) : p[1] = c)[2]
UpAll(n) == Concat([k \in DOMAIN n.s |-> IF n.s[k] < 128 THEN <<Up(n.s[k])>> ELSE Look(n.up, n.s[k])])
LowAll(n) == Concat([k \in DOMAIN n.s |-> IF n.s[k] < 128 THEN <<Lo(n.s[k])>> ELSE Look(n.low, n.s[k])])

(* ----- Cologne -------------------------------------------------------------- *)
\* A O U umlauts, sharp s
Germanic(x) == Concat([k \in DOMAIN x |-> CASE x[k] = 196 -> <<65>> [] x[k] = 214 -> <<79>> [] x[k] = 220 -> <<85>>
                                            [] x[k] = 223 -> <<83, 83>> [] OTHER -> <<x[k]>>])
\* PH sounds F (read left to right)
PhToF(x) == FoldLeft(LAMBDA acc, c : IF c = 72 /\ acc # <<>> /\ Last(acc) = 80 THEN Append(Take(acc, Len(acc) - 1), 70) ELSE Append(acc, c), <<>>, x)
ColLetters(n) == SelectSeq(UpS(Ascii(PhToF(Germanic(UpAll(n))), n.u)), IsUpper)
\* digits of the letter at k
ColCode(x, k) ==
  LET c == x[k]
      nxt == IF k < Len(x) THEN x[k + 1] ELSE 0
      prv == IF k > 1 THEN x[k - 1] ELSE 0
  IN CASE c \in {65, 69, 73, 79, 85, 74, 89} -> <<0>>
       [] c = 72 -> <<>>
       [] c \in {66, 80} -> <<1>>
       [] c \in {68, 84} -> IF nxt \in {67, 83, 90} THEN <<8>> ELSE <<2>>
       [] c \in {70, 86, 87} -> <<3>>
       [] c \in {71, 75, 81} -> <<4>>
       [] c = 67 -> IF k = 1 THEN IF nxt \in {65, 72, 75, 76, 79, 81, 82, 85, 88} THEN <<4>> ELSE <<8>>
                    ELSE IF prv \in {83, 90} THEN <<8>>
                    ELSE IF nxt \in {65, 72, 75, 79, 81, 85, 88} THEN <<4>> ELSE <<8>>
       [] c = 88 -> IF prv \in {67, 75, 81} THEN <<8>> ELSE <<4, 8>>
       [] c = 76 -> <<5>>
       [] c \in {77, 78} -> <<6>>
       [] c = 82 -> <<7>>
       [] c \in {83, 90} -> <<8>>
Cologne(n) ==
  LET x == ColLetters(n)
      raw == SqueezeS(Concat([k \in DOMAIN x |-> ColCode(x, k)]))
  IN IF raw = <<>> THEN <<>> ELSE <<raw[1]>> \o SelectSeq(Tail(raw), LAMBDA d : d # 0)

(* ----- Rusalka ----------------------------------------------------------------- *)
Sh == 643
Zh == 658
RusLetters(n) ==
  LET a == Concat([k \in DOMAIN LowAll(n) |-> LET c == LowAll(n)[k] IN
                     CASE c \in {269, 353, 349} -> <<99, 104>> [] c = 251 -> <<105, 111, 117>> [] c = 382 -> <<122, 104>> [] OTHER -> <<c>>])
  IN SelectSeq(LoS(Ascii(a, n.u)), IsLower)
RusRules == 10
\* length of what rule r rewrites at k in x, 0 if nothing
RusMatch(r, x, k) ==
  LET at(h) == IF h \in DOMAIN x THEN x[h] ELSE 0
      a == at(k)
      b == at(k + 1)
      c == at(k + 2)
      dt == a \in {100, 116}
  IN CASE r = 1 -> IF a = 99 /\ b = 122 THEN 2 ELSE 0
       [] r = 2 -> IF a = 105 /\ b \in {106, 121} /\ k + 1 = Len(x) THEN 2 ELSE 0
       [] r = 3 -> IF a \in {102, 118, 119} THEN 1 ELSE IF a = 112 /\ b = 104 THEN 2 ELSE 0
       [] r = 4 -> IF k # 1 THEN 0 ELSE IF a \in {106, 121} /\ b = 101 THEN 2 ELSE IF a = 101 THEN 1 ELSE 0
       [] r = 5 -> IF dt /\ b \in {99, 115} /\ c = 104 THEN 3 ELSE IF a \in {99, 115} /\ b = 104 THEN 2
                   ELSE IF a = 116 /\ b = 122 THEN 2 ELSE 0
       [] r = 6 -> IF dt /\ b = 122 /\ c = 104 THEN 3 ELSE IF dt /\ b = 106 THEN 2
                   ELSE IF a = 122 /\ b = 104 THEN 2 ELSE IF a = 106 THEN 1 ELSE 0
       [] r = 7 -> IF a = 107 /\ b = 115 THEN 2 ELSE 0
       [] r = 8 -> IF k = 1 /\ a = 121 /\ b \in {97, 101, 105, 111, 117} THEN 1
                   ELSE IF a = 105 /\ b = 111 /\ c = 117 THEN 3 ELSE 0
       [] r = 9 -> IF a \in {99, 103} THEN 1 ELSE 0
       [] r = 10 -> IF a = 104 THEN 1 ELSE 0
RusSub(r) == <<<<116, 115>>, <<>>, <<102>>, <<74>>, <<Sh>>, <<Zh>>, <<120>>, <<106>>, <<107>>, <<>>>>[r]
RECURSIVE Rewrite(_, _, _)
Rewrite(r, x, k) ==
  IF k > Len(x) THEN <<>>
  ELSE LET m == RusMatch(r, x, k)
       IN IF m = 0 THEN <<x[k]>> \o Rewrite(r, x, k + 1) ELSE RusSub(r) \o Rewrite(r, x, k + m)
RusVowels == {97, 101, 105, 111, 117, 121}
RusFinish(x) ==
  LET y == LoS(SqueezeS(x))
  IN IF y = <<>> THEN <<>>
     ELSE <<IF y[1] \in RusVowels THEN 97 ELSE y[1]>> \o SelectSeq(Tail(y), LAMBDA c : c \notin RusVowels)
Rusalka(n) ==
  LET x == RusLetters(n)
  IN IF Len(x) < 2 THEN x ELSE RusFinish(FoldLeft(LAMBDA acc, r : Rewrite(r, acc, 1), x, Iota(RusRules)))
=============================================================================
