------------------------------ MODULE Numeric ------------------------------
(***************************************************************************)
(* Definitions behind the similarity metrics, the signatures, the cluster  *)
(* evaluation and the online mean.  Weighted sets are functions from token *)
(* ids to integers; answers are exact rationals.                           *)
(***************************************************************************)
EXTENDS Base, Rat

(* ----- sets -------------------------------------------------------------- *)
SetI(a, b) == Cardinality(a \cap b)
SetU(a, b) == Cardinality(a \cup b)
Jaccard(a, b) == IF a = {} \/ b = {} THEN <<0, 1>> ELSE Rt(SetI(a, b), SetU(a, b))
Overlap(a, b) == IF a = {} \/ b = {} THEN <<0, 1>> ELSE Rt(SetI(a, b), Mn(Cardinality(a), Cardinality(b)))
Dice(a, b) == IF a = {} \/ b = {} THEN <<0, 1>> ELSE Rt(2 * SetI(a, b), Cardinality(a) + Cardinality(b))
\* the square of the binary cosine
BinCos2(a, b) == IF a = {} \/ b = {} THEN <<0, 1>>
                 ELSE Rt(SetI(a, b) * SetI(a, b), Cardinality(a) * Cardinality(b))

(* ----- weighted sets ------------------------------------------------------ *)
W(f, t) == IF t \in DOMAIN f THEN f[t] ELSE 0
Keys2(f, g) == SetToSeq(DOMAIN f \cup DOMAIN g)
Dot(f, g) == FoldLeft(LAMBDA acc, t : acc + W(f, t) * W(g, t), 0, Keys2(f, g))
Norm2(f) == Dot(f, f)
\* sign and square of the cosine; a null vector is similar to nothing
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cos2(f, g) == IF Norm2(f) = 0 \/ Norm2(g) = 0 THEN <<0, 1>>
              ELSE Rt(Dot(f, g) * Dot(f, g), Norm2(f) * Norm2(g))
WJ(f, g) == LET i == FoldLeft(LAMBDA acc, t : acc + Mn(W(f, t), W(g, t)), 0, Keys2(f, g))
                u == FoldLeft(LAMBDA acc, t : acc + Mx(W(f, t), W(g, t)), 0, Keys2(f, g))
            IN IF u = 0 THEN <<0, 1>> ELSE Rt(i, u)
\* multiplicities of a sequence of tokens
Count(s) == [t \in Ran(s) |-> Occ(s, t)]
\* a weighted set logged as a sequence of <<token, weight>>
WSet(ps) == [t \in { ps[k][1] : k \in DOMAIN ps } |-> (CHOOSE p \in Ran(ps) : p[1] = t)[2]]

(* ----- best matching evaluation ------------------------------------------- *)
\* truth and predicted are sequences of sets
BMErrors(T, P, allow) ==
  \/ T = <<>> \/ P = <<>>
  \/ \E k \in DOMAIN T : T[k] = {}
  \/ \E k \in DOMAIN P : P[k] = {}
  \/ LET ti == UNION Ran(T)
         pi == UNION Ran(P)
     IN \/ (~allow /\ ~(pi \subseteq ti))
        \/ ~(ti \subseteq pi)
        \/ \E x \in ti : Cardinality({ k \in DOMAIN P : x \in P[k] }) > 1
\* precision, recall, f1 of matching the truth cluster c with the predicted p (restricted to truth items)
BMScore(c, p) == LET tp == Cardinality(c \cap p)
                 IN <<Rt(tp, Cardinality(p)), Rt(tp, Cardinality(c)), Rt(2 * tp, Cardinality(p) + Cardinality(c))>>
\* every best match of c: the candidates maximising f1 (ties are all allowed)
BMBest(c, Ps) ==
  LET sc == { BMScore(c, p) : p \in { q \in Ps : q \cap c # {} } }
  IN { s \in sc : \A r \in sc : RLeq(r[3], s[3]) }
\* every answer: sums over one best choice per truth cluster
BMSums(T, P) ==
  LET ti == UNION Ran(T)
      Ps == { P[k] \cap ti : k \in DOMAIN P }
      add(acc, c) == UNION { { <<RAdd(a[1], s[1]), RAdd(a[2], s[2]), RAdd(a[3], s[3])>> : s \in BMBest(c, Ps) } : a \in acc }
  IN FoldLeft(add, { << <<0, 1>>, <<0, 1>>, <<0, 1>> >> }, T)
BMAnswers(T, P) == { <<RDivN(a[1], Len(T)), RDivN(a[2], Len(T)), RDivN(a[3], Len(T))>> : a \in BMSums(T, P) }

(* ----- labels and clusters ------------------------------------------------- *)
\* ls: sequence of <<item, label>>; clusters in order of first appearance of their label
GroupByLabel(ls) ==
  LET labs == Dedup([k \in DOMAIN ls |-> ls[k][2]])
      mem(l) == LET s == SelectSeq(ls, LAMBDA p : p[2] = l) IN [k \in DOMAIN s |-> s[k][1]]
  IN [h \in DOMAIN labs |-> mem(labs[h])]
\* item -> index of its (last) cluster, 0-based
LabelsOf(cl) == { <<x, k - 1>> : <<x, k>> \in
                    { xk \in (UNION { Ran(cl[h]) : h \in DOMAIN cl }) \X DOMAIN cl :
                        /\ xk[1] \in Ran(cl[xk[2]])
                        /\ \A h \in DOMAIN cl : h > xk[2] => xk[1] \notin Ran(cl[h]) } }

(* ----- online mean ---------------------------------------------------------- *)
\* registers <<sum, n>>; a history is a sequence of operations
MeanStep(regs, o) ==
  CASE o[1] = "add" -> [regs EXCEPT ![o[2]] = <<@[1] + o[3], @[2] + 1>>]
    [] o[1] = "sub" -> IF regs[o[2]][2] = 0 THEN regs ELSE [regs EXCEPT ![o[2]] = <<@[1] - o[3], @[2] - 1>>]
    [] o[1] = "iadd" -> [regs EXCEPT ![o[2]] = <<@[1] + regs[o[3]][1], @[2] + regs[o[3]][2]>>]
    [] o[1] = "plus" -> [regs EXCEPT ![3] = <<regs[o[2]][1] + regs[o[3]][1], regs[o[2]][2] + regs[o[3]][2]>>]
\* what an operation reports: 1 if it must be refused
MeanRefused(regs, o) == o[1] = "sub" /\ regs[o[2]][2] = 0
\* what can be observed of a register: length and mean (<<0, 0>> when undefined)
MeanView(r) == <<r[2], IF r[2] = 0 THEN <<0, 0>> ELSE Rt(r[1], r[2])>>

(* ----- squeeze ---------------------------------------------------------------- *)
SqueezeKeep(s, keep) ==
  FoldLeft(LAMBDA acc, c : IF acc # <<>> /\ Last(acc) = c /\ c \notin keep THEN acc ELSE Append(acc, c), <<>>, s)
Roman == {73, 88, 67, 77, 105, 120, 99, 109}

(* ----- signatures --------------------------------------------------------------- *)
\* 32-bit values are <<hi, lo>>
Less32(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Min32(x, y) == IF Less32(x, y) THEN x ELSE y
MinSig(s, t) == [k \in DOMAIN s |-> Min32(s[k], t[k])]
Agree(s, t) == Cardinality({ k \in DOMAIN s : s[k] = t[k] })
\* majority vote over token bit vectors, with multiplicities
Majority(bits, mult, f) ==
  [k \in 1..f |-> IF FoldLeft(LAMBDA acc, t : acc + mult[t] * (2 * bits[t][k] - 1), 0, Iota(Len(bits))) > 0 THEN 1 ELSE 0]
=============================================================================
