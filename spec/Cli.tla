-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: a table is a header and rows of cells (sequences of   *)
(* code points); each command maps a table to a table or to a report.      *)
(***************************************************************************)
EXTENDS TextKeys

PosOf(head, name) == Min({ k \in DOMAIN head : head[k] = name })
PutAt(row, p, v) == [row EXCEPT ![p] = v]
InsertAfter(row, p, v) == Take(row, p) \o <<v>> \o Drop(row, p)

(* ----- split --------------------------------------------------------------------- *)
\* pieces of x between the occurrences of sep (not empty), read left to right
RECURSIVE SplitBy(_, _)
SplitBy(x, sep) ==
  LET at == { k \in 1..(Len(x) - Len(sep) + 1) : SubSeq(x, k, k + Len(sep) - 1) = sep }
  IN IF at = {} THEN <<x>>
     ELSE <<Take(x, Min(at) - 1)>> \o SplitBy(Drop(x, Min(at) + Len(sep) - 1), sep)
\* o: sep, target and rename (<<>> or <<name>>)
SplitHead(head, p, o) == (IF o.rename = <<>> THEN head ELSE PutAt(head, p, o.rename[1])) \o o.target
SplitRow(row, p, o) ==
  LET vs == SplitBy(row[p], o.sep)
  IN [k \in DOMAIN vs |-> IF o.target = <<>> THEN PutAt(row, p, vs[k]) ELSE Append(row, vs[k])]
SplitRows(rows, p, o) == Concat([k \in DOMAIN rows |-> SplitRow(rows[k], p, o)])

(* ----- transform ------------------------------------------------------------------ *)
\* e: sp, up, low, u the tables of what is outside ASCII
LookUp(tab, c) == (CHOOSE p \in Ran(tab) : p[1] = c)[2]
MapS(tab, F(_), x) == Concat([k \in DOMAIN x |-> IF x[k] < 128 THEN <<F(x[k])>> ELSE LookUp(tab, x[k])])
Blank(e, c) == IF c < 128 THEN c \in Space ELSE c \in Ran(e.sp)
Strip(e, x) ==
  LET solid == { k \in DOMAIN x : ~Blank(e, x[k]) }
  IN IF solid = {} THEN <<>> ELSE SubSeq(x, Min(solid), Max(solid))
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
FpOpt == [keep |-> TRUE, squeeze |-> FALSE, split |-> {}]
OneOp(e, op, x) ==
  CASE op = "lower" -> MapS(e.low, Lo, x)
    [] op = "upper" -> MapS(e.up, Up, x)
    [] op = "strip" -> Strip(e, x)
    [] op = "squeeze" -> SqueezeS(x)
    [] op = "unidecode" -> Ascii(x, e.u)
    [] op = "fingerprint" -> JoinWith(Fingerprint(x, e.u, FpOpt), <<32>>)
    [] op = "len" -> Decimal(Len(x))
    [] op = "twice" -> x \o x                         \* --eval "value + value"
    [] op = "reverse" -> Reverse(x)                   \* --eval "value[::-1]"
Chain(e, ops, x) == FoldLeft(LAMBDA acc, op : OneOp(e, op, acc), x, ops)
\* o: ops, target (<<>> or <<name>>), after
NewCell(row, p, o, v) == IF o.target = <<>> THEN PutAt(row, p, v) ELSE IF o.after THEN InsertAfter(row, p, v) ELSE Append(row, v)
TransformHead(head, p, o) == IF o.target = <<>> THEN head ELSE NewCell(head, p, o, o.target[1])
TransformRow(e, row, p, o) == NewCell(row, p, o, Chain(e, o.ops, row[p]))

(* ----- cluster -------------------------------------------------------------------- *)
ColumnOf(rows, p) == [k \in DOMAIN rows |-> rows[k][p]]
KeyOf(e, v) == JoinWith(Fingerprint(v, e.u, FpOpt), <<32>>)
\* the sets of distinct values sharing a fingerprint
ClustersOf(e, col) ==
  LET key == [v \in Ran(col) |-> KeyOf(e, v)]
      group(k) == { v \in Ran(col) : key[v] = k }
  IN { group(k) : k \in { h \in Range(key) \ {<<>>} : Cardinality(group(h)) >= 2 } }
RowsOf(col, S) == Cardinality({ k \in DOMAIN col : col[k] \in S })
=============================================================================
