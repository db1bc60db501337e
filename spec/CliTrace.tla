------------------------------ MODULE CliTrace ------------------------------
(* Judges recorded runs of the command line. *)
EXTENDS Cli, TraceBase
P(e) == PosOf(e.head, e.col)
\* a table with as many cells in every row keeps it so
Rect(e) == Chk("ragged" \in DOMAIN e \/ \A k \in DOMAIN e.rows2 : Len(e.rows2[k]) = Len(e.head2), "rows_match_the_header")
SplitVerdict(e) ==
  Rect(e) \cup Chk(e.head2 = SplitHead(e.head, P(e), e.o), "header")
  \cup Chk(e.rows2 = SplitRows(e.rows, P(e), e.o), "one_row_per_value")
TransformVerdict(e) ==
  Rect(e) \cup Chk(e.head2 = TransformHead(e.head, P(e), e.o), "header")
  \cup Chk(e.rows2 = [k \in DOMAIN e.rows |-> TransformRow(e, e.rows[k], P(e), e.o)], "cells_transformed")
\* e.r: the clusters of the report, [id, values: << <<value, count>> >>, harmonized, nb_values, nb_rows]
ClusterVerdict(e) ==
  LET col == ColumnOf(e.rows, P(e))
      want == ClustersOf(e, col)
      vals(c) == [k \in DOMAIN c.values |-> c.values[k][1]]
      html == e.type = "html"
      S(x) == IF html THEN Strip(e, x) ELSE x
      HowOften(x) == Cardinality({ k \in DOMAIN col : S(col[k]) = x })
      wantS == { { S(v) : v \in c } : c \in want }
  IN Chk({ Ran(vals(c)) : c \in Ran(e.r) } = wantS /\ Len(e.r) = Cardinality(want), "clusters_of_the_column")
     \cup Chk(\A c \in Ran(e.r) : c.nb_values = Len(c.values), "number_of_values")
     \cup Chk(\A c \in Ran(e.r) : \E w \in want : { S(v) : v \in w } = Ran(vals(c)) /\ c.nb_rows = RowsOf(col, w) /\ Len(c.values) = Cardinality(w), "number_of_rows")
     \cup Chk(html \/ \A c \in Ran(e.r) : \A k \in DOMAIN c.values : c.values[k][2] = RowsOf(col, {c.values[k][1]}), "count_of_a_value")
     \cup Chk(html \/ \A c \in Ran(e.r) : \A k \in 1..(Len(c.values) - 1) : c.values[k][2] >= c.values[k + 1][2], "values_by_frequency")
     \cup Chk(html \/ \A c \in Ran(e.r) : c.harmonized = c.values[1][1], "harmonized_is_the_most_frequent")
     \cup Chk(\A k \in DOMAIN e.r : e.r[k].id = (IF html THEN k ELSE k - 1), "numbering")
     \cup Chk(e.lines = Len(e.rows) /\ e.distinct = Cardinality(Ran(col)) /\ e.found = Len(e.r), "statistics")
     \cup Chk(e.algorithm = "fingerprint_collision" /\ e.timed, "run_information")
     \cup Chk(e.undecided, "nothing_harmonized_beforehand")
     \* stripped html items still tell the order, when they remain distinct
     \cup Chk(~html \/ Cardinality({ S(v) : v \in Ran(col) }) < Cardinality(Ran(col))
             \/ \A c \in Ran(e.r) : \A k \in 1..(Len(c.values) - 1) : HowOften(c.values[k][1]) >= HowOften(c.values[k + 1][1]), "html_values_by_frequency")
CliTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE CASE e.op = "split" -> SplitVerdict(e)
         [] e.op = "transform" -> TransformVerdict(e)
         [] e.op = "cluster" -> ClusterVerdict(e)
         \* of a command that mostly clusters, the report claims neither next to nothing nor more than the whole
         [] e.op = "timed" -> Chk(e.took * 100 >= e.wall /\ e.took <= e.wall, "time_of_the_clustering")
              \* n rows, all distinct, in pairs of one fingerprint
              \cup Chk(e.lines = e.n /\ e.distinct = e.n /\ e.found = e.n \div 2, "statistics")
              \cup Chk(e.sizes = e.n /\ e.odd = <<>>, "number_of_values")
         [] OTHER -> {"unknown_op"}
=============================================================================
