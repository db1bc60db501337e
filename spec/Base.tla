-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by every module: text is a sequence of code points,   *)
(* verdicts are sets of clause names.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

\* the clause `name` is broken unless c holds
Chk(c, name) == IF c THEN {} ELSE {name}

Ran(s) == { s[k] : k \in DOMAIN s }
Iota(n) == [k \in 1..n |-> k]
IsSetSeq(s) == Cardinality(Ran(s)) = Len(s)          \* no repetition
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
CeilDiv(a, b) == (a + b - 1) \div b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
\* number of occurrences of x in s
Occ(s, x) == Cardinality({ k \in DOMAIN s : s[k] = x })
\* same multiset
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Ran(s) \cup Ran(t) : Occ(s, x) = Occ(t, x)
\* first occurrences only, order kept
Dedup(s) == FoldLeft(LAMBDA acc, x : IF \E k \in DOMAIN acc : acc[k] = x THEN acc ELSE Append(acc, x), <<>>, s)
\* strictly increasing choice of positions: t is a subsequence of s
RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(t, k, s, j) ==
  IF k > Len(t) THEN TRUE
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF t[k] = s[j] THEN SubseqFrom(t, k + 1, s, j + 1)
  ELSE SubseqFrom(t, k, s, j + 1)
IsSubseq(t, s) == SubseqFrom(t, 1, s, 1)
\* concatenation of a sequence of sequences
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
\* all sequences over S of length at most n
SeqUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
=============================================================================
