---------------------------- MODULE Neighborhood ----------------------------
(* Which pairs of items a candidate-selection strategy compares.  A        *)
(* clusterer then answers for the graph: compared and similar.             *)
EXTENDS SimGraph

\* unordered pairs, smaller position first
Pr(x, y) == IF x < y THEN <<x, y>> ELSE <<y, x>>
PairSeqToSet(ps) == { Pr(ps[k][1], ps[k][2]) : k \in DOMAIN ps }

(* --- blocking / key collision: items sharing a block (0 = no block) ----- *)
SharePairs(bl) == { <<x, y>> \in (DOMAIN bl) \X (DOMAIN bl) :
                      x < y /\ (Ran(bl[x]) \cap Ran(bl[y])) \ {0} # {} }

(* --- sorted neighbourhood: stable sort, then a sliding window ----------- *)
\* ranks: the sort key of each position
SortedBy(ks) == SortSeq(Iota(Len(ks)), LAMBDA x, y : ks[x] < ks[y] \/ (ks[x] = ks[y] /\ x < y))
WindowPairs(ks, w) == LET s == SortedBy(ks)
                      IN { Pr(s[i], s[j]) : <<i, j>> \in
                             { ij \in (1..Len(s)) \X (1..Len(s)) : ij[1] < ij[2] /\ ij[2] < ij[1] + w } }

(* --- adaptive sorted neighbourhood: full accumulative adaptation -------- *)
\* sim is a predicate on (sorted) ranks given as a set of unordered rank pairs R.
\* Enlarge: while the first and last records of the window are similar, restart
\* the window at its last record with the accumulated size.
RECURSIVE Enlarge(_, _, _, _, _)
Enlarge(R, n, f, first, last) ==
  IF last <= n /\ Pr(first, last) \in R
  THEN Enlarge(R, n, f, last, last + (last - f))
  ELSE Mn(last, n)
\* Retrench: drop trailing records not similar to their predecessor, never below the base size
RECURSIVE Retrench(_, _, _, _)
Retrench(R, f, last, w) ==
  IF last - f + 1 > w /\ Pr(last - 1, last) \notin R THEN Retrench(R, f, last - 1, w) ELSE last
RECURSIVE Windows(_, _, _, _)
Windows(R, n, w, first) ==
  IF first > n THEN <<>>
  ELSE IF first + w - 1 > n THEN << <<first, n>> >>
  ELSE LET l == Retrench(R, first, Enlarge(R, n, first, first, first + w - 1), w)
       IN << <<first, l>> >> \o Windows(R, n, w, l + 1)
AdaptivePairs(ks, w, E) ==
  LET s == SortedBy(ks)
      n == Len(s)
      R == { <<i, j>> \in (1..n) \X (1..n) : i < j /\ Pr(s[i], s[j]) \in E }
      W == Windows(R, n, w, 1)
  IN UNION { { Pr(s[i], s[j]) : <<i, j>> \in { ij \in (W[k][1]..W[k][2]) \X (W[k][1]..W[k][2]) : ij[1] < ij[2] } }
             : k \in DOMAIN W }
=============================================================================
