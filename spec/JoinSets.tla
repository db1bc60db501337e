------------------------------ MODULE JoinSets ------------------------------
(***************************************************************************)
(* Prefix-filtering set joins in exact arithmetic.  Records are increasing *)
(* sequences of token ranks.  The threshold is num/den; every bound of the *)
(* algorithm is an integer computed from it without rounding.              *)
(***************************************************************************)
EXTENDS Neighborhood

RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE ISqrtFrom(x, r + 1)
ISqrt(x) == ISqrtFrom(x, 0)
CeilSqrt(x) == IF ISqrt(x) * ISqrt(x) = x THEN ISqrt(x) ELSE ISqrt(x) + 1

\* shortest record that can be similar to one of length l
MinLength(metric, num, den, l) ==
  CASE metric = "jaccard" -> CeilDiv(l * num, den)
    [] metric = "dice" -> CeilDiv(l * num, 2 * den - num)
    [] metric = "binary_cosine" -> CeilDiv(l * num * num, den * den)
\* number of shared tokens needed
NeededOverlap(metric, num, den, l1, l2) ==
  CASE metric = "jaccard" -> CeilDiv(num * (l1 + l2), num + den)
    [] metric = "dice" -> CeilDiv(num * (l1 + l2), 2 * den)
    [] metric = "binary_cosine" -> CeilDiv(CeilSqrt(num * num * l1 * l2), den)
\* tokens probed, tokens indexed: floor((1 - x) l) + 1, that is l + 1 - ceil(x l)
ProbeLength(metric, num, den, l) == l + 1 - MinLength(metric, num, den, l)
IndexLength(metric, num, den, l) == l + 1 - NeededOverlap(metric, num, den, l, l)

Similar(metric, num, den, l1, l2, o) ==
  o > 0 /\ CASE metric = "jaccard" -> o * den >= num * (l1 + l2 - o)
             [] metric = "dice" -> 2 * o * den >= num * (l1 + l2)
             [] metric = "binary_cosine" -> o * o * den * den >= num * num * l1 * l2
Overlap(x, y) == Cardinality(Ran(x) \cap Ran(y))
=============================================================================
