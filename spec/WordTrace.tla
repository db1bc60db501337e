----------------------------- MODULE WordTrace -----------------------------
(* Judges recorded calls of the word tokenizer. *)
EXTENDS WordOptions, TraceBase

Types == {"word", "number", "punct", "emoji", "smiley", "url", "email", "hashtag", "mention"}

(* ----- nothing lost, nothing invented ------------------------------------------- *)
Solid(T, x) == SelectSeq(x, LAMBDA c : ~Sp(T, c) /\ ~Junk(c))
CoverVerdict(e) ==
  LET T == Text(e, e.s)
      r == e.r
  IN Chk(SaveHyphens(Solid(T, Values(r)), Visible(T)), "text_lost_or_invented")
     \cup Chk(\A k \in DOMAIN r : r[k][2] # <<>>, "empty_token")
     \cup Chk(\A k \in DOMAIN r : \A h \in DOMAIN r[k][2] : ~Sp(T, r[k][2][h]), "space_in_token")
     \cup Chk(\A k \in DOMAIN r : r[k][1] \in Types, "unknown_type")
     \* hyphens are only dropped between words
     \cup Chk(Occ(Visible(T), 45) - Occ(Values(r), 45) <= 2 * Cardinality({ k \in DOMAIN r : r[k][1] = "word" }) , "hyphens_lost")

(* ----- the rules -------------------------------------------------------------------- *)
ShapeVerdict(T, r) ==
  Chk(\A k \in DOMAIN r : r[k][1] = "number" => IsNumber(T, r[k][2]), "number_is_a_number")
  \cup Chk(\A k \in DOMAIN r : r[k][1] = "mention" => Len(r[k][2]) > 1 /\ r[k][2][1] = 64 /\ \A h \in 2..Len(r[k][2]) : Twitter(r[k][2][h]), "mention_is_a_mention")
  \cup Chk(\A k \in DOMAIN r : r[k][1] = "hashtag" => Len(r[k][2]) > 1 /\ r[k][2][1] \in {35, 36} /\ \A h \in 2..Len(r[k][2]) : An(T, r[k][2][h]), "hashtag_is_a_hashtag")
  \cup Chk(\A k \in DOMAIN r : r[k][1] = "punct" => Len(r[k][2]) = 1, "punctuation_is_one_character")
RulesVerdict(e) ==
  LET T == Text(e, e.s)
      x == Tokens(T)
  IN ShapeVerdict(T, e.r)
     \cup Chk([k \in DOMAIN e.r |-> e.r[k][2]] = [k \in DOMAIN x |-> x[k][2]], "cut_by_the_rules")
     \cup Chk([k \in DOMAIN e.r |-> e.r[k][1]] = [k \in DOMAIN x |-> x[k][1]], "typed_by_the_rules")

(* ----- options ------------------------------------------------------------------------ *)
OptionsVerdict(e) == Chk(e.r = WithOptions(e), "options_transform_the_stream")

WordTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE CASE e.op = "cover" -> CoverVerdict(e)
         [] e.op = "rules" -> RulesVerdict(e)
         [] e.op = "options" -> OptionsVerdict(e)
         [] e.op = "refused" -> Chk(e.refused, "inconsistent_options_accepted")
         [] OTHER -> {"unknown_op"}
=============================================================================
