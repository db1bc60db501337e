--------------------------- MODULE PairwiseMachine ---------------------------
(***************************************************************************)
(* Pairwise clustering over a pool of workers.  The upper triangular       *)
(* matrix of comparisons is cut into square chunks; each worker takes the  *)
(* next chunk, evaluates the similarity of its pairs, and its matches      *)
(* reach the parent in any order (unordered delivery), where they are      *)
(* merged in a disjoint-set forest.  Checked for every graph on N items,   *)
(* every chunk size and every interleaving of fetches and deliveries.        *)
(***************************************************************************)
EXTENDS SimGraph, Json

CONSTANTS N, ChunkSizes, Workers, Bounds, Emit

AllPairs == { p \in (1..N) \X (1..N) : p[1] < p[2] }

VARIABLES E, cs, bnd,     \* the problem: edges, chunk size, <<min, max>>
          nextc,          \* chunks not yet handed out, in order
          busy,           \* worker -> chunk index or 0
          done,           \* chunks whose matches were delivered
          merged,         \* matches delivered so far
          part,           \* the forest, as a partition
          out             \* answer, or {} before the end
vars == <<E, cs, bnd, nextc, busy, done, merged, part, out>>

NB == CeilDiv(N, cs)
\* chunk list in the order of the iterator: column blocks, then row blocks up to the diagonal
Chunks == Concat([j \in 1..NB |-> [i \in 1..j |-> <<i, j>>]])
Block(b) == { x \in 1..N : x > (b - 1) * cs /\ x <= b * cs }
ChunkPairs(c) == LET ij == Chunks[c]
                 IN { p \in AllPairs : p[1] \in Block(ij[1]) /\ p[2] \in Block(ij[2]) }

Init == /\ E \in SUBSET AllPairs /\ cs \in ChunkSizes /\ bnd \in Bounds
        /\ nextc = 1 /\ busy = [w \in Workers |-> 0] /\ done = {}
        /\ merged = {} /\ part = { {x} : x \in 1..N } /\ out = {}

Fetch(w) == /\ busy[w] = 0 /\ nextc <= Len(Chunks)
           /\ busy' = [busy EXCEPT ![w] = nextc] /\ nextc' = nextc + 1
           /\ UNCHANGED <<E, cs, bnd, done, merged, part, out>>

BlockOf(P, x) == CHOOSE b \in P : x \in b
Union(P, p) == LET a == BlockOf(P, p[1])
                   b == BlockOf(P, p[2])
               IN (P \ {a, b}) \cup {a \cup b}

Deliver(w) == /\ busy[w] # 0
              /\ LET m == ChunkPairs(busy[w]) \cap E
                 IN /\ merged' = merged \cup m
                    /\ part' = FoldSet(LAMBDA p, P : Union(P, p), part, m)
              /\ done' = done \cup {busy[w]}
              /\ busy' = [busy EXCEPT ![w] = 0]
              /\ UNCHANGED <<E, cs, bnd, nextc, out>>

Finish == /\ done = 1..Len(Chunks) /\ out = {}
          /\ out' = { <<"answer", { c \in part : InBounds(Cardinality(c), bnd[1], bnd[2]) }>> }
          /\ IF Emit THEN PrintT("CASE " \o ToJson([n |-> N, e |-> SetToSeq(E), cs |-> cs, mn |-> bnd[1], mx |-> bnd[2]])) ELSE TRUE
          /\ UNCHANGED <<E, cs, bnd, nextc, busy, done, merged, part>>

Next == Finish \/ \E w \in Workers : Fetch(w) \/ Deliver(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
\* the chunks tile the upper triangle: no pair skipped, none compared twice
Tiling == /\ UNION { ChunkPairs(c) : c \in 1..Len(Chunks) } = AllPairs
          /\ \A c, d \in 1..Len(Chunks) : c # d => ChunkPairs(c) \cap ChunkPairs(d) = {}
\* the forest is always the components of what was delivered: order cannot matter
ForestSound == part = Components(N, merged)
Answer == out # {} => out = { <<"answer", ComponentClusters(Adj(N, E), bnd[1], bnd[2])>> }
Terminates == <>(out # {})
=============================================================================
