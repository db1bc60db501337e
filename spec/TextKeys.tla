------------------------------ MODULE TextKeys ------------------------------
(***************************************************************************)
(* Keys of a text.  A text is a sequence of code points; U maps the code   *)
(* points outside ASCII to their ASCII transliteration (the transliterating *)
(* library is trusted).                                                    *)
(***************************************************************************)
EXTENDS Base

IsLower(c) == c \in 97..122
IsUpper(c) == c \in 65..90
IsDigit(c) == c \in 48..57
Space == (9..13) \cup (28..32)
Lo(c) == IF IsUpper(c) THEN c + 32 ELSE c
Up(c) == IF IsLower(c) THEN c - 32 ELSE c
LoS(s) == [k \in DOMAIN s |-> Lo(s[k])]
UpS(s) == [k \in DOMAIN s |-> Up(s[k])]
\* u: a sequence of <<code point, ascii sequence>>
Translit(u, c) == IF c < 128 THEN <<c>> ELSE (CHOOSE p \in Ran(u) : p[1] = c)[2]
Ascii(s, u) == Concat([k \in DOMAIN s |-> Translit(u, s[k])])

\* lexicographic order on sequences of code points
LexLess(s, t) ==
  LET m == Mn(Len(s), Len(t))
      d == { k \in 1..m : s[k] # t[k] }
  IN IF d = {} THEN Len(s) < Len(t) ELSE s[Min(d)] < t[Min(d)]
SortedSet(S) == SetToSortSeq(S, LexLess)
\* maximal runs of non-space code points
Words(s) ==
  LET r == FoldLeft(LAMBDA acc, c : IF c \in Space
                                     THEN IF acc[2] = <<>> THEN acc ELSE <<Append(acc[1], acc[2]), <<>>>>
                                     ELSE <<acc[1], Append(acc[2], c)>>, <<<<>>, <<>>>>, s)
  IN IF r[2] = <<>> THEN r[1] ELSE Append(r[1], r[2])
SqueezeS(s) == FoldLeft(LAMBDA acc, c : IF acc # <<>> /\ Last(acc) = c THEN acc ELSE Append(acc, c), <<>>, s)
JoinWith(ts, sep) == IF ts = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, t : acc \o sep \o t, Head(ts), Tail(ts))

(* ----- fingerprint ---------------------------------------------------------- *)
\* o: keep (digits), squeeze, split (set of code points), stop (set of words), min
Cleaned(s, u, o) ==
  LET cut == [k \in DOMAIN s |-> IF s[k] \in o.split THEN 32 ELSE s[k]]
      low == LoS(Ascii(cut, u))
  IN SelectSeq(low, LAMBDA c : IsLower(c) \/ c \in Space \/ (o.keep /\ IsDigit(c)))
FpWords(s, u, o) ==
  LET ws == Words(Cleaned(s, u, o))
  IN [k \in DOMAIN ws |-> IF o.squeeze THEN SqueezeS(ws[k]) ELSE ws[k]]
Fingerprint(s, u, o) == SortedSet(Ran(FpWords(s, u, o)))

(* ----- n-grams --------------------------------------------------------------- *)
Grams(n, s) == IF Len(s) < n THEN <<s>> ELSE [k \in 1..(Len(s) - n + 1) |-> SubSeq(s, k, k + n - 1)]
FpGrams(n, s, u, o) == SortedSet(Ran(Grams(n, Concat(FpWords(s, u, o)))))
JoinGrams(gs) == Head(gs) \o [k \in 1..(Len(gs) - 1) |-> Last(gs[k + 1])]
\* sub-sequences of grams, of every size from all of them down to max(1, floor(k * p/q))
SubSeqsOf(gs, m) == { [h \in 1..m |-> gs[SetToSortSeq(d, LAMBDA x, y : x < y)[h]]] : d \in kSubset(m, DOMAIN gs) }
GramKeys(n, s, p, q) ==
  LET gs == Grams(n, s)
      k == Len(s) - n + 1
      least == Mx(1, (k * p) \div q)
  IN {Concat(gs)} \cup UNION { { Concat(x) : x \in SubSeqsOf(gs, m) } : m \in least..(k - 1) }

(* ----- omission and skeleton keys ----------------------------------------------- *)
Vowels == {65, 69, 73, 79, 85}
\* JKQXZVWYBFMGPDHCLNTSR
ConsonantOrder == <<74, 75, 81, 88, 90, 86, 87, 89, 66, 70, 77, 71, 80, 68, 72, 67, 76, 78, 84, 83, 82>>
Letters(s, u) == SelectSeq(UpS(Ascii(s, u)), LAMBDA c : IsUpper(c))
Omission(ls) == SelectSeq(ConsonantOrder, LAMBDA c : c \in Ran(ls)) \o Dedup(SelectSeq(ls, LAMBDA c : c \in Vowels))
Skeleton(ls) ==
  IF ls = <<>> THEN <<>>
  ELSE LET rest == SelectSeq(Tail(ls), LAMBDA c : c # ls[1])
       IN <<ls[1]>> \o Dedup(SelectSeq(rest, LAMBDA c : c \notin Vowels)) \o Dedup(SelectSeq(rest, LAMBDA c : c \in Vowels))
=============================================================================
