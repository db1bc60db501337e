---------------------------- MODULE Candidates ----------------------------
(***************************************************************************)
(* Candidate pairs of sparse vectors, before any similarity is computed.   *)
(* vs is a sequence of weighted sets (functions from dimensions to         *)
(* positive integers); pairs are positions <<i, j>>.                       *)
(***************************************************************************)
EXTENDS Numeric

Shares(vs, i, j) == DOMAIN vs[i] \cap DOMAIN vs[j] # {}
\* the pairs sharing a dimension, the later one first
SharedPairs(vs) == { <<i, j>> \in (DOMAIN vs) \X (DOMAIN vs) : j < i /\ Shares(vs, i, j) }

\* j has all the dimensions of i
HasAll(vs, i, j) == j # i /\ DOMAIN vs[i] # {} /\ DOMAIN vs[i] \subseteq DOMAIN vs[j]

ISqrt(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
\* weights are positive: comparing squares is comparing cosines
AsClose(vs, i, l, m) == RLeq(Cos2(vs[i], vs[m]), Cos2(vs[i], vs[l]))
\* lead: the leader each item is filed under
GoodLeaders(vs, lead) ==
  /\ DOMAIN lead = DOMAIN vs
  /\ Cardinality(Ran(lead)) <= ISqrt(Len(vs))
  /\ \A i \in DOMAIN vs : \A m \in Ran(lead) : AsClose(vs, i, lead[i], m)
\* under its leader an item meets those filed there before
LeaderPairs(lead, i) == <<<<i, lead[i]>>>> \o [k \in 1..Cardinality({ j \in 1..(i - 1) : lead[j] = lead[i] }) |->
                            <<i, SetToSortSeq({ j \in 1..(i - 1) : lead[j] = lead[i] }, <)[k]>>]
=============================================================================
