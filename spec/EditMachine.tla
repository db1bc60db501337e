---------------------------- MODULE EditMachine ----------------------------
(***************************************************************************)
(* The banded single-vector algorithm behind limited_levenshtein_distance  *)
(* (and, with K >= both lengths, levenshtein_distance): swap so that A is  *)
(* the shorter string, strip the common suffix then the common prefix,     *)
(* give up when the length difference exceeds the bound, then fill one     *)
(* vector inside a diagonal band, giving up as soon as the cell on the     *)
(* final diagonal exceeds the bound.                                       *)
(***************************************************************************)
EXTENDS EditDistance, Json

CONSTANTS Alphabet, MaxLen, MaxK, Emit

VARIABLES A0, B0, k0,          \* the call's arguments
          A, B, pc, v, i, js, je, k, result
vars == <<A0, B0, k0, A, B, pc, v, i, js, je, k, result>>

Init == /\ A0 \in SeqUpTo(Alphabet, MaxLen) /\ B0 \in SeqUpTo(Alphabet, MaxLen)
        /\ k0 \in 0..MaxK
        /\ A = A0 /\ B = B0 /\ k = k0
        /\ pc = "start" /\ v = <<>> /\ i = 0 /\ js = 0 /\ je = 0 /\ result = -1

UB == k0 + 1
Args == UNCHANGED <<A0, B0, k0>>
Work == UNCHANGED <<v, i, js, je>>

Return(r) == /\ result' = r /\ pc' = "done"
             /\ IF Emit THEN PrintT("CASE " \o ToJson([a |-> A0, b |-> B0, k |-> k0])) ELSE TRUE

Start == /\ pc = "start" /\ Args /\ Work /\ UNCHANGED k
         /\ IF A = B THEN Return(0) /\ UNCHANGED <<A, B>>
            ELSE /\ pc' = "suffix" /\ UNCHANGED result
                 /\ IF Len(A) > Len(B) THEN A' = B /\ B' = A ELSE UNCHANGED <<A, B>>

Suffix == /\ pc = "suffix" /\ Args /\ Work /\ UNCHANGED <<k, result>>
          /\ IF A # <<>> /\ Last(A) = Last(B)
             THEN A' = Front(A) /\ B' = Front(B) /\ UNCHANGED pc
             ELSE pc' = "prefix" /\ UNCHANGED <<A, B>>

Prefix == /\ pc = "prefix" /\ Args /\ Work /\ UNCHANGED <<k, result>>
          /\ IF A # <<>> /\ Head(A) = Head(B)
             THEN A' = Tail(A) /\ B' = Tail(B) /\ UNCHANGED pc
             ELSE pc' = "setup" /\ UNCHANGED <<A, B>>

Diff == Len(B) - Len(A)

Setup == /\ pc = "setup" /\ Args /\ UNCHANGED <<A, B>>
         /\ IF A = <<>> THEN Return(Limited(k, Len(B))) /\ Work /\ UNCHANGED k
            ELSE IF k <= Len(B) /\ Diff > k THEN Return(UB) /\ Work /\ UNCHANGED k
            ELSE /\ k' = Mn(k, Len(B))
                 /\ v' = [j \in 1..Len(B) |-> IF j <= k' THEN j ELSE UB]
                 /\ js' = 0 /\ je' = k' /\ i' = 0
                 /\ pc' = "row" /\ UNCHANGED result

\* one row of the vector, restricted to the band
RowStep(c, lo, hi) ==
  LET step(acc, j) ==      \* acc = <<vector, left, current>>
        LET above == acc[3]
            diag == acc[2]
            lft == acc[1][j]
            cur == IF c = B[j] THEN diag ELSE Min3(diag, lft, above) + 1
        IN <<[acc[1] EXCEPT ![j] = cur], lft, cur>>
  IN FoldLeft(step, <<v, i, i + 1>>, [x \in 1..(hi - lo) |-> lo + x])

Row == /\ pc = "row" /\ Args /\ UNCHANGED <<A, B, k>>
       /\ LET js2 == js + IF i > k - Diff THEN 1 ELSE 0
              je2 == je + IF je < Len(B) THEN 1 ELSE 0
              r == RowStep(A[i + 1], js2, je2)
          IN /\ js' = js2 /\ je' = je2 /\ v' = r[1] /\ i' = i + 1
             /\ IF k < Len(B) /\ r[1][i + Diff + 1] > k THEN Return(UB)
                ELSE IF i + 1 = Len(A) THEN Return(IF r[3] <= k THEN r[3] ELSE UB)
                ELSE UNCHANGED <<pc, result>>

Next == Start \/ Suffix \/ Prefix \/ Setup \/ Row
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
TypeOK == result \in -1..(2 * MaxLen + MaxK + 1)
\* what the algorithm relies on: trimming never changes the distance
TrimSound == Lev(A, B) = Lev(A0, B0)
\* no cell of the band is ever below the true distance of its prefixes, and every cell that
\* can still lie on a path of cost at most k is exact
BandSound == pc = "row" /\ i > 0 =>
  \A j \in (js + 1)..je :
     LET d == Lev(Take(A, i), Take(B, j))
         rest == Abs((Len(B) - j) - (Len(A) - i))
     IN v[j] >= d /\ (d + rest <= k => v[j] = d)
\* the guarantee
Exact == pc = "done" => result = Limited(k0, Lev(A0, B0))
\* the reference itself
ReferenceSound == pc = "start" =>
  /\ Lev(A0, B0) = LevRec(A0, B0)
  /\ Lev(A0, B0) = Lev(B0, A0)
  /\ (Lev(A0, B0) <= 1) <=> Lte1(A0, B0)
  /\ (Osa(A0, B0) <= 1) <=> DamLte1(A0, B0)
  /\ Osa(A0, B0) <= Lev(A0, B0)
NearSound == pc = "start" => Near(k0, A0, B0) = Limited(k0, Lev(A0, B0))
=============================================================================
