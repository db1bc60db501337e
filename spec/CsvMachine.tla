----------------------------- MODULE CsvMachine -----------------------------
(***************************************************************************)
(* A command reading rows one by one and writing the rows they become; at  *)
(* the end the cluster command reports on what it counted on the way.      *)
(***************************************************************************)
EXTENDS Cli, Json
CONSTANTS MaxRows, MaxCell, Emit
VARIABLES cmd, rows, o, k, out, counts, pc
vars == <<cmd, rows, o, k, out, counts, pc>>
\* a A | space
Cells == SeqUpTo({97, 65, 124, 32}, MaxCell)
NoTables == [sp |-> <<>>, up |-> <<>>, low |-> <<>>, u |-> <<>>]
Names == << <<105, 100>>, <<118>> >>
SplitOpt == [sep : {<<124>>, <<124, 124>>}, target : {<<>>, << <<116>> >>}, rename : {<<>>, << <<114>> >>}]
TransOpt == [ops : {<<"upper">>, <<"strip", "len">>, <<"squeeze", "lower">>, <<"fingerprint">>}, target : {<<>>, << <<116>> >>}, after : BOOLEAN]
Init == /\ \E n \in 0..MaxRows : \E cs \in [1..n -> Cells] : rows = [h \in 1..n |-> << <<48 + h>>, cs[h] >>]
        /\ \/ cmd = "split" /\ o \in SplitOpt
           \/ cmd = "transform" /\ o \in TransOpt
           \/ cmd = "cluster" /\ o = [ops |-> <<>>]
        /\ k = 0 /\ out = <<>> /\ counts = [v \in {} |-> 0] /\ pc = "run"
Bump(f, v) == IF v \in DOMAIN f THEN [f EXCEPT ![v] = @ + 1] ELSE f @@ (v :> 1)
Row == /\ pc = "run" /\ k < Len(rows) /\ k' = k + 1
       /\ counts' = Bump(counts, rows[k + 1][2])
       /\ out' = CASE cmd = "split" -> out \o SplitRow(rows[k + 1], 2, o)
                   [] cmd = "transform" -> Append(out, TransformRow(NoTables, rows[k + 1], 2, o))
                   [] cmd = "cluster" -> out
       /\ UNCHANGED <<cmd, rows, o, pc>>
End == /\ pc = "run" /\ k = Len(rows) /\ pc' = "done"
       /\ IF Emit THEN PrintT("CASE " \o ToJson([cmd |-> cmd, cells |-> ColumnOf(rows, 2), o |-> o])) ELSE TRUE
       /\ UNCHANGED <<cmd, rows, o, k, out, counts>>
Spec == Init /\ [][Row \/ End]_vars
Done == pc = "done"
Head1 == IF cmd = "split" THEN SplitHead(Names, 2, o) ELSE IF cmd = "transform" THEN TransformHead(Names, 2, o) ELSE Names
Rectangular == \A h \in DOMAIN out : Len(out[h]) = Len(Head1)
\* splitting is undone by joining, cell by cell, and the other cells are repeated
Joinable == Done /\ cmd = "split" =>
   \A h \in DOMAIN rows :
     LET mine == SelectSeq(out, LAMBDA r : r[1] = rows[h][1])
     IN /\ mine # <<>>
        /\ JoinWith([g \in DOMAIN mine |-> Last(mine[g])], o.sep) = rows[h][2]
OneToOne == Done /\ cmd = "transform" => Len(out) = Len(rows) /\ \A h \in DOMAIN rows : out[h][1] = rows[h][1]
Counted == SumSeq([h \in 1..Cardinality(DOMAIN counts) |-> counts[SetToSeq(DOMAIN counts)[h]]]) = k
Col == ColumnOf(rows, 2)
ClustersDisjoint == Done /\ cmd = "cluster" =>
   LET C == ClustersOf(NoTables, Col)
   IN /\ \A x, y \in C : x # y => x \cap y = {}
      /\ \A x \in C : x \subseteq DOMAIN counts /\ RowsOf(Col, x) = FoldSet(LAMBDA v, acc : acc + counts[v], 0, x)
=============================================================================
