---------------------------- MODULE MisuseMachine ----------------------------
(***************************************************************************)
(* An entry point checks its options one after the other, in whatever      *)
(* order, before it works on anything: a call is refused at the first one  *)
(* that is wrong, and produces something only once all were accepted.      *)
(***************************************************************************)
EXTENDS Misuse, Json

CONSTANTS Emit
Values(fn, opt) ==
  CASE opt = "mode" -> {Components, Fuzzy, "leader", "components", "Fuzzy_Clusters", "", None}
    [] opt = "functions" -> {"similarity", "distance", None}
    [] opt = "metric" -> {"jaccard", "overlap", "dice", "binary_cosine", "cosine", "Jaccard", "euclidean", None}
    [] opt = "ordering" -> {None, "freq", "crc32", "frequency", "md5"}
    [] opt = "tokenizer" -> {None, "callable", "str"}
    [] opt = "graph" -> {"bipartite", "inner_edge", "three_parts"}
    [] opt \in {"keep", "drop"} -> {None, "empty", "word", "mention", "words", "Word", "word+", "all+", "word+words", "all+Word"}
    [] opt = "lengths" -> {None, "min", "max", "min<max", "min=max", "min>max"}
Calls(fn) == { [fn |-> fn, args |-> f] : f \in { g \in [OptionsOf(fn) -> UNION { Values(fn, o) : o \in OptionsOf(fn) }] :
                                                   \A o \in OptionsOf(fn) : g[o] \in Values(fn, o) } }
VARIABLES call, left, pc, produced
vars == <<call, left, pc, produced>>
Init == /\ call \in UNION { Calls(fn) : fn \in Entries }
        /\ left = OptionsOf(call.fn) \cup {"contradiction"} /\ pc = "check" /\ produced = FALSE
Check(o) == /\ pc = "check" /\ o \in left /\ left' = left \ {o}
            /\ pc' = IF (IF o = "contradiction" THEN Contradicts(call) ELSE Wrong(call, o)) THEN "refused" ELSE "check"
            /\ UNCHANGED <<call, produced>>
Work == /\ pc = "check" /\ left = {} /\ pc' = "done" /\ produced' = TRUE /\ UNCHANGED <<call, left>>
        /\ IF Emit THEN PrintT("CASE " \o ToJson(call)) ELSE TRUE
Report == /\ pc = "refused" /\ pc' = "reported" /\ UNCHANGED <<call, produced>> /\ left' = {}
          /\ IF Emit THEN PrintT("CASE " \o ToJson(call)) ELSE TRUE
Next == (\E o \in OptionsOf(call.fn) \cup {"contradiction"} : Check(o)) \/ Work \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
NothingProducedWhenRefused == pc \in {"refused", "reported"} => ~produced
RefusedExactly == /\ pc = "reported" => Refused(call)
                  /\ pc = "done" => ~Refused(call)
Decided == <>(pc \in {"reported", "done"})
=============================================================================
