------------------------------ MODULE WordTok ------------------------------
(***************************************************************************)
(* Word tokenization.  A text T is a record: s the code points, and, for   *)
(* those outside ASCII, the sets sp, an, al, dg, up, lw of those that are  *)
(* spaces, alphanumerical, letters, digits, upper and lower case; em the   *)
(* set of emoji sequences it holds (unicode tables are trusted).           *)
(* Step(T, i) is the tokens found at position i and the next position.     *)
(***************************************************************************)
EXTENDS TextKeys

Sp(T, c) == IF c < 128 THEN c \in Space ELSE c \in T.sp
Dg(T, c) == IF c < 128 THEN IsDigit(c) ELSE c \in T.dg
Al(T, c) == IF c < 128 THEN IsLower(c) \/ IsUpper(c) ELSE c \in T.al
An(T, c) == IF c < 128 THEN IsLower(c) \/ IsUpper(c) \/ IsDigit(c) ELSE c \in T.an
UpC(T, c) == IF c < 128 THEN IsUpper(c) ELSE c \in T.up
LwC(T, c) == IF c < 128 THEN IsLower(c) ELSE c \in T.lw
Junk(c) == c <= 31

Apo == {39, 8217}                        \* ' and the curly one
Decimals == {46, 44}                     \* . ,
Parts == {45, 95}                        \* - _
Sigils == {35, 64, 36}                   \* # @ $
MidDot == 183
VowelSet == {65, 69, 73, 79, 85, 89, 97, 101, 105, 111, 117, 121, 192, 193, 194, 196, 197, 198, 200, 201, 202, 203, 205, 206, 207, 211, 212, 216, 217, 218, 219, 220, 224, 225, 226, 228, 229, 230, 232, 233, 234, 235, 237, 238, 239, 243, 244, 248, 249, 250, 251, 252, 255, 260, 261, 280, 281, 304, 305, 338, 339, 376}
Consonant(c) == c \notin VowelSet
Twitter(c) == c = 95 \/ IsDigit(c) \/ IsLower(c) \/ IsUpper(c)
\* ll re m s ve d
English == {<<108, 108>>, <<114, 101>>, <<109>>, <<115>>, <<118, 101>>, <<100>>}
\* tis twas
Archaic == {<<116, 105, 115>>, <<116, 119, 97, 115>>}
\* hui
Hui == <<104, 117, 105>>
\* je tu il ils elle elles nous vous on le la les moi toi lui y
Targets == {<<106, 101>>, <<116, 117>>, <<105, 108>>, <<105, 108, 115>>, <<101, 108, 108, 101>>, <<101, 108, 108, 101, 115>>, <<110, 111, 117, 115>>, <<118, 111, 117, 115>>, <<111, 110>>, <<108, 101>>, <<108, 97>>, <<108, 101, 115>>, <<109, 111, 105>>, <<116, 111, 105>>, <<108, 117, 105>>, <<121>>}
\* apt appt dr etc jr m mgr min mr mrs ms mme mlle no p pp prof sr st vs
Abbreviations == {<<97, 112, 116>>, <<97, 112, 112, 116>>, <<100, 114>>, <<101, 116, 99>>, <<106, 114>>, <<109>>, <<109, 103, 114>>, <<109, 105, 110>>, <<109, 114>>, <<109, 114, 115>>, <<109, 115>>, <<109, 109, 101>>, <<109, 108, 108, 101>>, <<110, 111>>, <<112>>, <<112, 112>>, <<112, 114, 111, 102>>, <<115, 114>>, <<115, 116>>, <<118, 115>>}

\* first position from k on that does not satisfy P (Len + 1 if none)
Until(T, k, P(_)) == LET bad == { h \in k..Len(T.s) : ~P(T.s[h]) } IN IF bad = {} THEN Len(T.s) + 1 ELSE Min(bad)
Cut(T, i, j) == SubSeq(T.s, i, j - 1)                       \* [i, j)
SplitOn(x, c) ==
  LET r == FoldLeft(LAMBDA acc, y : IF y = c THEN <<Append(acc[1], acc[2]), <<>>>> ELSE <<acc[1], Append(acc[2], y)>>, <<<<>>, <<>>>>, x)
  IN Append(r[1], r[2])
Tok(ty, v) == <<ty, v>>

(* ----- smileys: length of the one found at i, 0 if none ---------------------- *)
Eyes == {58, 59, 61, 56}                                     \* : ; = 8
Nose == {45, 111, 42, 39}                                    \* - o * '
Mouth == {41, 93, 40, 91, 100, 68, 112, 80, 47, 58, 125, 123, 64, 124, 92}
Window == 64
Smiley(T, i) ==
  LET end == Mn(Len(T.s), i + Window - 1)
      at(k) == IF k <= end THEN T.s[k] ELSE -1
      dash == LET d == Until(T, i, LAMBDA c : c = 45) IN IF d > i /\ at(d) = 62 THEN d - i + 1 ELSE 0          \* -->
      back == IF at(i) = 60 THEN LET d == Mn(Until(T, i + 1, LAMBDA c : c = 45), end + 1) IN IF d > i + 1 THEN d - i ELSE 0 ELSE 0
      o == IF at(i) \in {60, 62} THEN 1 ELSE 0
      face(k, x, y) == IF at(k) \in x THEN IF at(k + 1) \in Nose /\ at(k + 2) \in y THEN 3
                                            ELSE IF at(k + 1) \in y THEN 2 ELSE 0 ELSE 0
      front == LET f == face(i + o, Eyes, Mouth) IN IF f = 0 THEN 0 ELSE f + o
      behind == face(i, Mouth, Eyes)
      kiss == IF at(i) \in {60, 58} /\ at(i + 1) = 51 THEN 2 ELSE 0
      joy == IF at(i) = 94 /\ at(i + 1) = 94 THEN 2 ELSE 0
  IN IF dash > 0 THEN dash ELSE IF back > 0 THEN back ELSE IF front > 0 THEN front
     ELSE IF behind > 0 THEN behind ELSE IF kiss > 0 THEN kiss ELSE joy

(* ----- clusters of punctuation and emojis -------------------------------------- *)
RECURSIVE Puncts(_, _)
Puncts(T, x) ==
  IF x = <<>> THEN <<>>
  ELSE LET found == { m \in T.em : Len(m) <= Len(x) /\ Take(x, Len(m)) = m }
       IN IF found = {} THEN <<Tok("punct", <<x[1]>>)>> \o Puncts(T, Tail(x))
          ELSE LET n == Max({ Len(m) : m \in found })
                   k == IF Len(x) > n /\ x[n + 1] = 65039 THEN n + 1 ELSE n      \* emoji presentation selector
               IN <<Tok("emoji", Take(x, k))>> \o Puncts(T, Drop(x, k))
ClusterEnd(T, i) == Until(T, i + 1, LAMBDA c : ~(Sp(T, c) \/ An(T, c) \/ Junk(c) \/ c = 35 \/ c = 64))

(* ----- numbers ------------------------------------------------------------------- *)
\* scan from j: <<end, type>>; type "word" when what starts as a number goes on as a word
RECURSIVE NumScan(_, _, _, _, _)
NumScan(T, j, last, dec, ty) ==
  IF j > Len(T.s) \/ Sp(T, T.s[j]) THEN <<j, ty>>
  ELSE LET n == T.s[j] IN
    IF Dg(T, n) THEN NumScan(T, j + 1, n, dec, "number")
    ELSE IF last \in Decimals THEN <<j - 1, ty>>
    ELSE IF last # 45 /\ (Al(T, n) \/ n \in Parts) THEN <<j, "word">>
    ELSE IF n \notin Decimals \/ dec THEN <<j, ty>>
    ELSE NumScan(T, j + 1, n, TRUE, "number")
Number(T, i) ==
  LET r == NumScan(T, i + 1, T.s[i], FALSE, "punct")
      j == IF r[2] # "word" /\ r[1] > i + 1 /\ T.s[r[1] - 1] \in Decimals THEN r[1] - 1 ELSE r[1]
  IN <<j, IF j = i + 1 /\ T.s[i] = 45 THEN "punct" ELSE r[2]>>

(* ----- words, urls and emails ------------------------------------------------------- *)
Http == <<104, 116, 116, 112, 58, 47, 47>>
Https == <<104, 116, 116, 112, 115, 58, 47, 47>>
StartsWith(T, i, p) == Len(T.s) >= i + Len(p) - 1 /\ SubSeq(T.s, i, i + Len(p) - 1) = p
MailChar(c) == IsLower(c) \/ IsUpper(c) \/ IsDigit(c) \/ c \in {33, 35, 36, 37, 38, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
Mail(T, i) == LET k == Until(T, i, MailChar) IN k > i /\ k <= Mn(Len(T.s), i + Window - 1) /\ T.s[k] = 64
\* scan from j: <<end, acronym?>>
RECURSIVE WordScan(_, _, _)
WordScan(T, j, acr) ==
  IF j > Len(T.s) \/ Sp(T, T.s[j]) THEN <<j, acr>>
  ELSE LET n == T.s[j] IN
    IF n \in Parts \/ n = MidDot THEN IF j = Len(T.s) \/ Sp(T, T.s[j + 1]) THEN <<j, acr>> ELSE WordScan(T, j + 1, acr)
    ELSE IF An(T, n) THEN WordScan(T, j + 1, acr)
    ELSE IF n = 46 /\ UpC(T, T.s[j - 1]) THEN WordScan(T, j + 1, TRUE)
    ELSE <<j, acr>>

\* end, type and acronym flag of the entity starting at i
Entity(T, i) ==
  LET c == T.s[i]
      num == IF Dg(T, c) \/ c = 45 THEN Number(T, i) ELSE <<i + 1, "word">>
      url == StartsWith(T, i, Http) \/ StartsWith(T, i, Https)
      mail == Mail(T, i)
  IN IF c \in {35, 36} THEN [j |-> Until(T, i + 1, LAMBDA x : An(T, x)), ty |-> "hashtag", acr |-> FALSE]
     ELSE IF c = 64 THEN [j |-> Until(T, i + 1, Twitter), ty |-> "mention", acr |-> FALSE]
     ELSE IF num[2] # "word" THEN [j |-> num[1], ty |-> num[2], acr |-> FALSE]
     ELSE IF url \/ mail THEN [j |-> Until(T, num[1], LAMBDA x : ~Sp(T, x) /\ x # 44), ty |-> IF url THEN "url" ELSE "email", acr |-> FALSE]
     ELSE LET w == WordScan(T, num[1], FALSE) IN [j |-> w[1], ty |-> "word", acr |-> w[2]]

Acronym(x) ==
  LET parts == SplitOn(x, 46)
  IN IF \A k \in DOMAIN parts : Len(parts[k]) <= 1 THEN <<Tok("word", x)>>
     ELSE Concat([k \in DOMAIN parts |-> (IF parts[k] = <<>> THEN <<>> ELSE <<Tok("word", parts[k])>>)
                                          \o (IF k < Len(parts) THEN <<Tok("punct", <<46>>)>> ELSE <<>>)])
Union(x) ==
  LET parts == SplitOn(x, 45)
      dt == \E k \in 1..(Len(x) - 2) : x[k] = 45 /\ x[k + 1] = 116 /\ x[k + 2] = 45         \* -t-
      words(ps) == [k \in DOMAIN ps |-> Tok("word", ps[k])]
  IN IF Len(parts) = 3 /\ dt THEN words(SelectSeq(parts, LAMBDA p : p # <<>>))
     ELSE IF Len(parts) = 2 /\ parts[2] \in Targets THEN words(parts)
     ELSE <<Tok("word", x)>>

\* what a finished token b = [i, j) becomes, given what follows it
Finish(T, i, j, ty, acr) ==
  LET b == Cut(T, i, j)
      l == Len(T.s)
      k == Until(T, j + 1, LAMBDA c : An(T, c) \/ c \in Sigils)
      a == Cut(T, j + 1, k)
      q == <<T.s[j]>>
      go(ts, nx) == [ts |-> ts, nx |-> nx]
  IN IF acr THEN go(Acronym(b), j)
     ELSE IF j <= l /\ T.s[j] \in Apo
     THEN IF a = <<>> THEN go(<<Tok(ty, b), Tok("punct", q)>>, k)
          ELSE IF a \in English THEN go(<<Tok(ty, b), Tok("word", q \o a)>>, k)
          ELSE IF ty # "word" THEN go(<<Tok(ty, b)>>, j)
          ELSE IF Dg(T, a[1]) THEN go(<<Tok(ty, b \o q)>>, j + 1)
          ELSE IF (Last(b) = 110 /\ a = <<116>>) \/ a = Hui \/ 45 \in Ran(b) THEN go(<<Tok(ty, b \o q \o a)>>, k)
          ELSE IF (a[1] # 104 /\ Consonant(Last(b)) /\ Consonant(a[1]) /\ a[1] \notin Sigils) \/ b \in {<<79>>, <<111>>}
          THEN go(<<Tok(ty, b \o q \o a)>>, k)
          ELSE go(<<Tok(ty, b \o q)>>, j + 1)
     ELSE IF j < l /\ T.s[j] = 46 /\ LoS(b) \in Abbreviations THEN go(<<Tok(ty, b \o <<46>>)>>, j + 1)
     ELSE IF ty = "word" THEN go(Union(b), j)
     ELSE go(<<Tok(ty, b)>>, j)

Step(T, i) ==
  LET c == T.s[i]
      l == Len(T.s)
      sm == Smiley(T, i)
      ce == ClusterEnd(T, i)
      lone == ~An(T, c) /\ c # 45 /\ c \notin Sigils
  IN IF Sp(T, c) \/ Junk(c) THEN [ts |-> <<>>, nx |-> i + 1]
     ELSE IF sm > 0 THEN [ts |-> <<Tok("smiley", Cut(T, i, i + sm))>>, nx |-> i + sm]
     ELSE IF lone /\ Cut(T, i, ce) \notin {<<x>> : x \in Apo} THEN [ts |-> Puncts(T, Cut(T, i, ce)), nx |-> ce]
     ELSE IF c \in {35, 36} /\ (i = l \/ ~Al(T, T.s[i + 1])) THEN [ts |-> <<Tok("punct", <<c>>)>>, nx |-> i + 1]
     ELSE IF c = 64 /\ (i = l \/ ~Twitter(T.s[i + 1])) THEN [ts |-> <<Tok("punct", <<c>>)>>, nx |-> i + 1]
     ELSE LET n == Entity(T, i)
              quoted == c \in Apo /\ LoS(Cut(T, i + 1, n.j)) \notin Archaic
          IN IF ~quoted THEN Finish(T, i, n.j, n.ty, n.acr)
             ELSE IF n.j = i + 1 THEN [ts |-> <<Tok("punct", <<c>>)>>, nx |-> i + 1]
             ELSE LET f == Finish(T, i + 1, n.j, n.ty, n.acr)
                  IN [ts |-> <<Tok("punct", <<c>>)>> \o f.ts, nx |-> f.nx]

RECURSIVE TokensFrom(_, _)
TokensFrom(T, i) == IF i > Len(T.s) THEN <<>> ELSE LET r == Step(T, i) IN r.ts \o TokensFrom(T, r.nx)
Tokens(T) == TokensFrom(T, 1)

(* ----- hashtags as words: cut at changes of case and around numbers ---------------- *)
\* state: piece kind of the last character read
RECURSIVE HashScan(_, _, _, _, _)
HashScan(T, x, k, from, st) ==
  LET piece(a, b) == <<Tok(IF st = "number" THEN "number" ELSE "word", SubSeq(x, a, b))>>
      c == x[k]
      up == UpC(T, c)
      lw == LwC(T, c)
      dg == Dg(T, c)
  IN IF k > Len(x) THEN piece(from, Len(x))
     ELSE CASE st = "number" -> IF dg THEN HashScan(T, x, k + 1, from, st)
                                ELSE piece(from, k - 1) \o HashScan(T, x, k + 1, k, IF up THEN "first" ELSE "lower")
            [] st = "lower" -> IF up THEN piece(from, k - 1) \o HashScan(T, x, k + 1, k, "first")
                               ELSE IF dg THEN piece(from, k - 1) \o HashScan(T, x, k + 1, k, "number")
                               ELSE HashScan(T, x, k + 1, from, st)
            [] st = "first" -> IF lw THEN HashScan(T, x, k + 1, from, "lower")
                               ELSE IF up THEN HashScan(T, x, k + 1, from, "upper")
                               ELSE IF dg THEN piece(from, k - 1) \o HashScan(T, x, k + 1, k, "number")
                               ELSE HashScan(T, x, k + 1, from, st)
            [] st = "upper" -> IF lw THEN piece(from, k - 2) \o HashScan(T, x, k + 1, k - 1, "lower")
                               ELSE IF dg THEN piece(from, k - 1) \o HashScan(T, x, k + 1, k, "number")
                               ELSE HashScan(T, x, k + 1, from, st)
\* x: the hashtag, sigil included
SplitHashtag(T, x) == HashScan(T, x, 3, 2, IF Dg(T, x[2]) THEN "number" ELSE "first")

(* ----- what the tokens must be, whatever the rules above ------------------------------ *)
Values(ts) == Concat([k \in DOMAIN ts |-> ts[k][2]])
Visible(T) == SelectSeq(T.s, LAMBDA c : ~Sp(T, c) /\ ~Junk(c))
\* equal but for hyphens missing from x
RECURSIVE SaveHyphens(_, _)
SaveHyphens(x, y) ==
  IF x = <<>> THEN \A k \in DOMAIN y : y[k] = 45
  ELSE IF y = <<>> THEN FALSE
  ELSE IF x[1] = y[1] THEN SaveHyphens(Tail(x), Tail(y))
  ELSE y[1] = 45 /\ SaveHyphens(x, Tail(y))
IsNumber(T, v) ==
  LET d == IF v # <<>> /\ v[1] = 45 THEN Tail(v) ELSE v
      marks == { k \in DOMAIN d : ~Dg(T, d[k]) }
  IN d # <<>> /\ Dg(T, Last(d)) /\ Cardinality(marks) <= 1 /\ \A k \in marks : d[k] \in Decimals
=============================================================================
