------------------------- MODULE EditDistanceTrace -------------------------
(* Judges recorded calls of the four edit distance functions.  An event may *)
(* carry a padding: the real call was made on pre.a.post and pre.b.post;    *)
(* EditMachine's TrimSound is the lemma that lets the core be judged alone. *)
EXTENDS EditDistance, TraceBase

EditDistanceTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  \* long strings: judged up to the distance e.near
  ELSE IF e.near > 0
  THEN LET d == Near(e.near, e.a, e.b)
       IN CASE e.op = "lev" -> Chk(IF d <= e.near THEN e.r = d ELSE e.r > e.near, "levenshtein_exact")
          []   e.op = "lim" -> Chk(IF d <= e.near THEN e.r = Limited(e.k, d)
                                   ELSE IF e.k <= e.near THEN e.r = e.k + 1 ELSE e.r > e.near, "limited_exact")
          []   e.op = "lte1" -> Chk(e.r = (d <= 1), "lte1_exact")
          []   e.op = "dam1" -> Chk(e.r = DamLte1(e.a, e.b), "damerau_lte1_exact")
  ELSE CASE e.op = "lev"  -> Chk(e.r = Lev(e.a, e.b), "levenshtein_exact")
       []   e.op = "lim"  -> Chk(e.r = Limited(e.k, Lev(e.a, e.b)), "limited_exact")
       []   e.op = "lte1" -> Chk(e.r = Lte1(e.a, e.b), "lte1_exact")
       []   e.op = "dam1" -> Chk(e.r = DamLte1(e.a, e.b), "damerau_lte1_exact")
       []   e.op = "mem"  -> Chk(e.growth_kb <= e.allow_kb, "no_memory_retained")
       []   OTHER -> {"unknown_op"}
=============================================================================
