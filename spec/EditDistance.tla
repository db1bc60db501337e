---------------------------- MODULE EditDistance ----------------------------
(***************************************************************************)
(* What an edit distance is.  Strings are sequences of code points.  Lev   *)
(* is the classical dynamic program (its agreement with the recursive      *)
(* definition LevRec is model-checked in EditMachine).                     *)
(***************************************************************************)
EXTENDS Base

Min3(a, b, c) == Mn(a, Mn(b, c))

RECURSIVE LevRec(_, _)
LevRec(a, b) ==
  IF a = <<>> THEN Len(b)
  ELSE IF b = <<>> THEN Len(a)
  ELSE Min3(LevRec(Tail(a), b) + 1, LevRec(a, Tail(b)) + 1,
            LevRec(Tail(a), Tail(b)) + IF Head(a) = Head(b) THEN 0 ELSE 1)

LevRow(prev, c, i, b) ==
  FoldLeft(LAMBDA acc, j : Append(acc, Min3(acc[j] + 1, prev[j + 1] + 1,
                                            prev[j] + IF c = b[j] THEN 0 ELSE 1)),
           <<i>>, Iota(Len(b)))

Lev(a, b) ==
  IF a = b THEN 0
  ELSE FoldLeft(LAMBDA prev, i : LevRow(prev, a[i], i, b),
                [j \in 1..(Len(b) + 1) |-> j - 1], Iota(Len(a)))[Len(b) + 1]

Limited(k, d) == IF d > k THEN k + 1 ELSE d

(* the distance of long strings, exact up to k: only the cells within k of the diagonal *)
(* (its agreement with Lev is model-checked in EditMachine, NearSound)                  *)
Far == 1000000
NearRow(prev, i, k, a, b) ==
  FoldLeft(LAMBDA acc, o :
     LET j == i + o - k - 1
     IN Append(acc, IF j < 0 \/ j > Len(b) THEN Far
                    ELSE IF j = 0 THEN i
                    ELSE Min3(IF o > 1 THEN acc[o - 1] + 1 ELSE Far,
                              IF o < 2 * k + 1 THEN prev[o + 1] + 1 ELSE Far,
                              prev[o] + IF a[i] = b[j] THEN 0 ELSE 1)),
     <<>>, Iota(2 * k + 1))
Near(k, a, b) ==
  IF Abs(Len(a) - Len(b)) > k THEN k + 1
  ELSE Limited(k, FoldLeft(LAMBDA prev, i : NearRow(prev, i, k, a, b),
                           [o \in 1..(2 * k + 1) |-> IF o <= k \/ o - k - 1 > Len(b) THEN Far ELSE o - k - 1],
                           Iota(Len(a)))[Len(b) - Len(a) + k + 1])

\* direct characterisation of distance <= 1
DeleteAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
SwapAt(s, k) == [s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]]
Mismatches(a, b) == { k \in 1..Len(a) : a[k] # b[k] }
Lte1(a, b) ==
  \/ Len(a) = Len(b) /\ Cardinality(Mismatches(a, b)) <= 1
  \/ Len(a) + 1 = Len(b) /\ \E k \in 1..Len(b) : DeleteAt(b, k) = a
  \/ Len(b) + 1 = Len(a) /\ \E k \in 1..Len(a) : DeleteAt(a, k) = b

\* one adjacent transposition counts as one edit
Transposed(a, b) == Len(a) = Len(b) /\ \E k \in 1..(Len(a) - 1) : SwapAt(a, k) = b
DamLte1(a, b) == Lte1(a, b) \/ Transposed(a, b)

\* restricted Damerau-Levenshtein (optimal string alignment), three-row dynamic program
OsaRow(pp, prev, cp, c, i, b) ==
  FoldLeft(LAMBDA acc, j :
     LET base == Min3(acc[j] + 1, prev[j + 1] + 1, prev[j] + IF c = b[j] THEN 0 ELSE 1)
     IN Append(acc, IF i > 1 /\ j > 1 /\ c = b[j - 1] /\ cp = b[j] THEN Mn(base, pp[j - 1] + 1) ELSE base),
     <<i>>, Iota(Len(b)))
Osa(a, b) ==
  LET z == [j \in 1..(Len(b) + 1) |-> j - 1]
      r == FoldLeft(LAMBDA acc, i :
             <<acc[2], OsaRow(acc[1], acc[2], IF i > 1 THEN a[i - 1] ELSE -1, a[i], i, b)>>,
             <<z, z>>, Iota(Len(a)))
  IN r[2][Len(b) + 1]
=============================================================================
