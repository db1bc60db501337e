------------------------------- MODULE Misuse -------------------------------
(***************************************************************************)
(* Which calls are refused.  A call names an entry point and gives a value *)
(* to each of its checked options; an option the entry point does not have *)
(* is not part of the call.                                                *)
(***************************************************************************)
EXTENDS Base

None == "<none>"
Components == "connected_components"
Fuzzy == "fuzzy_clusters"
Relational == {"pairwise", "blocking", "sorted_neighborhood", "adaptive_sorted_neighborhood", "quickjoin", "nn_descent", "nn_descent_full"}
Clusterers == Relational \cup {"passjoin", "laesa", "intersection_index"}
Joins == {"all_pairs", "ppjoin", "ppjoin_plus"}
Entries == Clusterers \cup Joins \cup {"monopartite_projection", "WordTokenizer"}
TokenTypes == {"word", "punct", "number", "emoji", "mention", "hashtag", "url", "email", "smiley"}

OptionsOf(fn) ==
  (IF fn \in Clusterers THEN {"mode"} ELSE {})
  \cup (IF fn \in Relational THEN {"functions"} ELSE {})
  \cup (IF fn \in Joins \cup {"intersection_index", "monopartite_projection"} THEN {"metric"} ELSE {})
  \cup (IF fn \in Joins THEN {"ordering", "tokenizer"} ELSE {})
  \cup (IF fn = "monopartite_projection" THEN {"graph"} ELSE {})
  \cup (IF fn = "WordTokenizer" THEN {"keep", "drop", "lengths"} ELSE {})

Accepted(fn, opt) ==
  CASE opt = "mode" -> {Components, Fuzzy} \cup (IF fn = "pairwise" THEN {"leader"} ELSE {})
    [] opt = "functions" -> {"similarity", "distance"}
    [] opt = "metric" -> (CASE fn = "intersection_index" -> {"jaccard", "overlap"}
                            [] fn \in Joins -> {"jaccard", "dice", "binary_cosine"}
                            [] OTHER -> {None, "cosine", "jaccard", "overlap", "dice", "binary_cosine"})
    [] opt = "ordering" -> {None, "freq", "crc32"}
    [] opt = "tokenizer" -> {None, "callable"}
    [] opt = "graph" -> {"bipartite"}
    [] opt \in {"keep", "drop"} -> {None, "empty", "word+", "all+", "word+punct"} \cup TokenTypes
    [] opt = "lengths" -> {None, "min", "max", "min<max"}
Wrong(c, opt) == c.args[opt] \notin Accepted(c.fn, opt)
\* the only options that contradict each other
Contradicts(c) == c.fn = "WordTokenizer" /\ c.args["keep"] # None /\ c.args["drop"] # None
Refused(c) == Contradicts(c) \/ \E opt \in OptionsOf(c.fn) : Wrong(c, opt)
=============================================================================
