------------------------------ MODULE LevKeys ------------------------------
(***************************************************************************)
(* Collision keys for edit distances: two strings at distance at most K    *)
(* must share a key; for the 1D Levenshtein keys, only they may.           *)
(* The schemes below are those of fog (0, -1, -2 stand for the flags).     *)
(***************************************************************************)
EXTENDS EditDistance

F1 == 0
F2 == -1
F3 == -2
Sl(s, a, b) == SubSeq(s, a + 1, Mn(b, Len(s)))          \* python's s[a:b], 0 <= a

\* ----- wildcard neighbourhoods
SubKeys(s) == { [s EXCEPT ![k] = F1] : k \in DOMAIN s }
AllAdditions(s) == { Take(s, p) \o <<F1>> \o Drop(s, p) : p \in 0..Len(s) }
\* fog skips the addition between two equal letters
Additions(s) == { Take(s, p) \o <<F1>> \o Drop(s, p) : p \in { q \in 0..Len(s) : q = 0 \/ q = Len(s) \/ s[q] # s[q + 1] } }
Swaps(s) == { SwapAt(s, k) : k \in { h \in 1..(Len(s) - 1) : s[h] # s[h + 1] } }
Keys1(s) == {s} \cup SubKeys(s) \cup Additions(s)
Keys1D(s) == Keys1(s) \cup Swaps(s)
FullKeys1(s) == {s} \cup SubKeys(s) \cup AllAdditions(s)

\* ----- halves
Blocks1(s, tr) ==
  LET n == Len(s)
      h == n \div 2
      fst(k) == <<F1>> \o Take(s, k)
      snd(k) == Drop(s, k) \o <<F1>>
  IN IF n = 1 THEN { <<F1>> \o s, s \o <<F1>>, <<F1>> }
     ELSE IF n % 2 = 0
          THEN {fst(h), snd(h)} \cup (IF ~tr THEN {} ELSE
                 LET sh == snd(h)
                     fh == fst(h)
                 IN { <<F1>> \o Sl(s, 0, Mx(h - 1, 0)) \o <<sh[1]>>, <<fh[Len(fh)]>> \o Drop(s, h + 1) \o <<F1>> })
     ELSE {fst(h), snd(h), fst(h + 1), snd(h + 1)}

\* ----- thirds
Blocks2(s, tr) ==
  LET n == Len(s)
      q == n % 3
      a == n \div 3
      b == a + 1
      one(x) == <<F1>> \o x
      two(x) == <<F2>> \o x
      three(x) == <<F3>> \o x
  IN IF q = 0
     THEN {one(Sl(s, 0, a)), two(Sl(s, a, 2 * a)), three(Sl(s, 2 * a, n))}
          \cup (IF a = 0 THEN {} ELSE {two(Sl(s, a - 1, 2 * a - 1)), two(Sl(s, a + 1, 2 * a + 1))})
          \cup (IF a = 0 \/ ~tr THEN {} ELSE {one(Sl(s, 0, a - 1) \o <<s[a + 1]>>), two(<<s[a]>> \o Sl(s, a + 1, 2 * a)),
                                              three(<<s[2 * a]>> \o Sl(s, 2 * a + 1, n))})
     ELSE IF q = 2
     THEN {one(Sl(s, 0, b)), two(Sl(s, b, 2 * b)), three(Sl(s, 2 * b, n)), one(Sl(s, 0, a)), two(Sl(s, a, a + b)),
           three(Sl(s, a + b, n)), two(Sl(s, b, a + b))}
     ELSE {one(Sl(s, 0, b)), two(Sl(s, b, a + b)), three(Sl(s, a + b, n)), one(Sl(s, 0, a)), two(Sl(s, a, a + b)),
           two(Sl(s, a, 2 * a)), three(Sl(s, 2 * a, n))}
          \cup (IF ~tr \/ a = 0 THEN {} ELSE {two(Sl(s, b, a + b - 1) \o <<s[a + b + 1]>>)})

Meet(x, y) == x \cap y # {}

\* The pairs the pinned skipping of additions loses: the longer string differs from
\* the shorter one only by a letter put between two equal letters.
InsertionPoints(s, t) == { p \in 0..Len(s) : Take(t, p) = Take(s, p) /\ Drop(t, p + 1) = Drop(s, p) }
OnlyBetweenDoubled(s, t) ==
  Len(t) = Len(s) + 1 /\ InsertionPoints(s, t) # {}
  /\ \A p \in InsertionPoints(s, t) : p > 0 /\ p < Len(s) /\ s[p] = s[p + 1]
Doubled(a, b) == OnlyBetweenDoubled(a, b) \/ OnlyBetweenDoubled(b, a)
=============================================================================
