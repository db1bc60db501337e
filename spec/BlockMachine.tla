---------------------------- MODULE BlockMachine ----------------------------
(***************************************************************************)
(* Blocking and key collision.  Items are dispatched one after the other   *)
(* into buckets (0 is a falsy key: no bucket); the buckets are then solved *)
(* in any order, as a pool delivers them, a pair meeting in several        *)
(* buckets arriving several times; the pairs are merged in a forest.       *)
(* Key collision is the same machine without the similarity test, or, when *)
(* not merging, the buckets themselves.                                    *)
(***************************************************************************)
EXTENDS Neighborhood, Json

CONSTANTS N, K, Bounds, Kinds, MaxKeys, Emit
AllPairs == { p \in (1..N) \X (1..N) : p[1] < p[2] }
\* what the key function may return for one item
Keyings == { s \in SeqUpTo(IF "block" \in Kinds THEN 1..K ELSE 0..K, MaxKeys) : \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1] }

VARIABLES kind, E, bl, bnd, nxt, bucket, todo, pairs, part, pc
vars == <<kind, E, bl, bnd, nxt, bucket, todo, pairs, part, pc>>

Init == /\ kind \in Kinds /\ bnd \in Bounds
        /\ bl \in [1..N -> IF kind = "single" THEN { <<k>> : k \in 0..K } ELSE Keyings]
        /\ E \in IF kind \in {"block"} THEN SUBSET AllPairs ELSE {AllPairs}
        /\ nxt = 1 /\ bucket = [k \in 1..K |-> <<>>] /\ todo = {} /\ pairs = {}
        /\ part = { {x} : x \in 1..N } /\ pc = "index"

Index == /\ pc = "index" /\ nxt <= N
         /\ bucket' = [k \in 1..K |-> IF k \in Ran(bl[nxt]) THEN Append(bucket[k], nxt) ELSE bucket[k]]
         /\ nxt' = nxt + 1
         /\ UNCHANGED <<kind, E, bl, bnd, todo, pairs, part, pc>>
Indexed == /\ pc = "index" /\ nxt > N
           /\ todo' = { k \in 1..K : Len(bucket[k]) >= 2 } /\ pc' = "solve"
           /\ UNCHANGED <<kind, E, bl, bnd, nxt, bucket, pairs, part>>

BlockOf(P, x) == CHOOSE b \in P : x \in b
Union(P, p) == LET a == BlockOf(P, p[1])
                   b == BlockOf(P, p[2])
               IN (P \ {a, b}) \cup {a \cup b}
Solve(k) == /\ pc = "solve" /\ k \in todo
            /\ LET found == { p \in E : {p[1], p[2]} \subseteq Ran(bucket[k]) }
               IN /\ pairs' = pairs \cup found
                  /\ part' = FoldSet(LAMBDA p, P : Union(P, p), part, found)
            /\ todo' = todo \ {k}
            /\ UNCHANGED <<kind, E, bl, bnd, nxt, bucket, pc>>
Finish == /\ pc = "solve" /\ todo = {} /\ pc' = "done"
          /\ IF Emit THEN PrintT("CASE " \o ToJson([kind |-> kind, n |-> N, e |-> SetToSeq(E), bl |-> bl, mn |-> bnd[1], mx |-> bnd[2]])) ELSE TRUE
          /\ UNCHANGED <<kind, E, bl, bnd, nxt, bucket, todo, pairs, part>>
Next == Index \/ Indexed \/ Finish \/ \E k \in 1..K : Solve(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Want == E \cap SharePairs(bl)
\* nothing outside the share-a-block graph at any time, all of it at the end, in any order
PairsSound == pairs \subseteq Want
PairsComplete == pc = "done" => pairs = Want
ForestSound == part = Components(N, pairs)
Answer == pc = "done" =>
  { c \in part : Cardinality(c) >= 2 /\ InBounds(Cardinality(c), bnd[1], bnd[2]) }
     = { c \in ComponentClusters(Adj(N, Want), bnd[1], bnd[2]) : Cardinality(c) >= 2 }
\* a bucket holds an item once, however often the item repeats its key
BucketsAreSets == \A k \in 1..K : IsSetSeq(bucket[k]) /\ (pc # "index" => Ran(bucket[k]) = { x \in 1..N : k \in Ran(bl[x]) })
\* with one key per item merging changes nothing
SingleKey == kind = "single" /\ pc = "done" =>
  { c \in part : Cardinality(c) >= 2 } = { Ran(bucket[k]) : k \in { h \in 1..K : Len(bucket[h]) >= 2 } }
Terminates == <>(pc = "done")
=============================================================================
