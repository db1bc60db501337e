----------------------------- MODULE BandMachine -----------------------------
(***************************************************************************)
(* Minhash clustering over an abstract hash family.  H[h][t] is the value  *)
(* of the h-th hash of token t; the signature of an item is the row-wise   *)
(* minimum; signatures are cut into bands of rows (left-over rows are      *)
(* ignored) and the items sharing a whole band meet, are checked with the  *)
(* true Jaccard similarity, and linked.                                    *)
(***************************************************************************)
EXTENDS Neighborhood, Json

CONSTANTS Universe, Count, Rows, BandCounts, Thresholds, Values, Emit
T_two == {<<1, 2>>, <<1, 1>>}
VARIABLES H, toks, bands, thr, sigs, nxt, bucket, links, pc
vars == <<H, toks, bands, thr, sigs, nxt, bucket, links, pc>>
NonEmpty == SUBSET (1..Universe) \ {{}}

Init == /\ H \in [1..Rows -> [1..Universe -> Values]] /\ toks \in [1..Count -> NonEmpty]
        /\ bands \in BandCounts /\ bands <= Rows /\ thr \in Thresholds
        /\ sigs = <<>> /\ nxt = 1 /\ bucket = {} /\ links = {} /\ pc = "sign"
R == Rows \div bands
Sign == /\ pc = "sign" /\ nxt <= Count
        /\ LET s == [h \in 1..Rows |-> Min({ H[h][t] : t \in toks[nxt] })]
           IN /\ sigs' = Append(sigs, s)
              /\ bucket' = bucket \cup { <<b, SubSeq(s, (b - 1) * R + 1, b * R), nxt>> : b \in 1..bands }
        /\ nxt' = nxt + 1 /\ UNCHANGED <<H, toks, bands, thr, links, pc>>
Similar(x, y) == Cardinality(toks[x] \cap toks[y]) * thr[2] >= thr[1] * Cardinality(toks[x] \cup toks[y])
Link == /\ pc = "sign" /\ nxt > Count /\ pc' = "done"
        /\ links' = { Pr(p[1], p[2]) : p \in { q \in (1..Count) \X (1..Count) : q[1] < q[2] /\ Similar(q[1], q[2]) /\
                       \E c, d \in bucket : c[3] = q[1] /\ d[3] = q[2] /\ c[1] = d[1] /\ c[2] = d[2] } }
        /\ IF Emit /\ H = [h \in 1..Rows |-> [t \in 1..Universe |-> 1]]
           THEN PrintT("CASE " \o ToJson([n |-> Count, toks |-> [x \in 1..Count |-> SetToSeq(toks[x])], num |-> thr[1], den |-> thr[2], bands |-> bands, h |-> Rows])) ELSE TRUE
        /\ UNCHANGED <<H, toks, bands, thr, sigs, nxt, bucket>>
Next == Sign \/ Link
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Done == pc = "done"
Sound == Done => \A p \in links : Similar(p[1], p[2])
\* identical sets always meet, whatever the hashes and the bands
Identical == Done => \A x, y \in 1..Count : x < y /\ toks[x] = toks[y] => <<x, y>> \in links
\* exactly the similar pairs agreeing on all the rows of a band
Exact == Done => links = { p \in (1..Count) \X (1..Count) : p[1] < p[2] /\ Similar(p[1], p[2]) /\
                   \E b \in 0..(bands - 1) : \A k \in (b * R + 1)..((b + 1) * R) : sigs[p[1]][k] = sigs[p[2]][k] }
\* one row per band: any shared minimum is enough
Finest == Done /\ bands = Rows => \A x, y \in 1..Count : x < y /\ Similar(x, y) /\ (\E k \in 1..Rows : sigs[x][k] = sigs[y][k]) => <<x, y>> \in links
=============================================================================
