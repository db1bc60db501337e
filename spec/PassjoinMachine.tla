--------------------------- MODULE PassjoinMachine ---------------------------
(***************************************************************************)
(* The passjoin filter.  A string is cut into k + 1 segments which are     *)
(* indexed by length, rank and content; a probing string looks up, for     *)
(* each length within k of its own and each segment, the substrings inside *)
(* the multi-match-aware interval.  The machine joins a sequence of        *)
(* strings in the given order (or longest first), one string per step.     *)
(***************************************************************************)
EXTENDS Neighborhood, EditDistance, Json

CONSTANTS Alphabet, MaxLen, Count, Ks, Emit

\* segment i (0-based) of a string of length l: <<start (0-based), length>>
Segment(k, l, i) ==
  LET m == k + 1
      a == l \div m
      large == l - a * m
      small == m - large
  IN IF i < small THEN <<i * a, a>> ELSE <<small * a + (i - small) * (a + 1), a + 1>>
\* 0-based starts probed in a string of length s for segment i of strings of length l
Probes(k, s, l, i) ==
  LET sg == Segment(k, l, i)
      delta == s - l
      lo == Mx(0, Mx(sg[1] - i, sg[1] + delta - (k - i)))
      hi == Mn(s - sg[2], Mn(sg[1] + i, sg[1] + delta + (k - i)))
  IN lo..hi
Cut(s, st, ln) == SubSeq(s, st + 1, st + ln)
\* A (probing) finds B (indexed)
Candidate(k, A, B) ==
  /\ Abs(Len(A) - Len(B)) <= k
  /\ \E i \in 0..k : LET sg == Segment(k, Len(B), i)
                     IN \E j \in Probes(k, Len(A), Len(B), i) : Cut(A, j, sg[2]) = Cut(B, sg[1], sg[2])

Strings == SeqUpTo(Alphabet, MaxLen)
\* canonical choices of distinct strings: sets for the sorted variant are given in any order
VARIABLES k, strs, sort, order, nxt, indexed, pairs
vars == <<k, strs, sort, order, nxt, indexed, pairs>>

Init == /\ k \in Ks /\ strs \in [1..Count -> Strings] /\ IsSetSeq(strs)
        /\ sort \in BOOLEAN
        /\ order = IF sort THEN SortSeq(Iota(Count), LAMBDA x, y : Len(strs[x]) > Len(strs[y])) ELSE Iota(Count)
        /\ nxt = 1 /\ indexed = {} /\ pairs = {}
Probe == /\ nxt <= Count
         /\ LET x == order[nxt]
                A == strs[x]
                cands == { y \in indexed : (~sort \/ Len(strs[y]) >= Len(A)) /\ Candidate(k, A, strs[y]) }
            IN /\ pairs' = pairs \cup { Pr(x, y) : y \in { c \in cands :
                                (Len(A) <= k /\ Len(strs[c]) <= k) \/ Lev(A, strs[c]) <= k } }
               /\ indexed' = indexed \cup {x}
         /\ nxt' = nxt + 1
         /\ IF Emit /\ nxt = Count THEN PrintT("CASE " \o ToJson([k |-> k, strs |-> strs, sort |-> sort])) ELSE TRUE
         /\ UNCHANGED <<k, strs, sort, order>>
Next == Probe
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Close == { p \in indexed \X indexed : p[1] < p[2] /\ Lev(strs[p[1]], strs[p[2]]) <= k }
Exact == pairs = Close
\* the segments tile the string
Tile == \A l \in 0..(MaxLen + 2) :
          /\ Segment(k, l, 0)[1] = 0 /\ Segment(k, l, k)[1] + Segment(k, l, k)[2] = l
          /\ \A i \in 0..(k - 1) : Segment(k, l, i)[1] + Segment(k, l, i)[2] = Segment(k, l, i + 1)[1]
=============================================================================
