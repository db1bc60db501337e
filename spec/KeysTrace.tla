------------------------------ MODULE KeysTrace ------------------------------
(* Judges recorded calls of fog.key and of the fingerprint & n-gram tokenizers. *)
EXTENDS LevKeys, TextKeys, TraceBase

(* ----- edit distance keys: ka, kb = keys of a and b -------------------------- *)
LkVerdict(e) ==
  LET meet == Meet(Ran(e.ka), Ran(e.kb))
      known == e.fn \in {"l1k", "d1k"} /\ Doubled(e.a, e.b)
      need == CASE e.fn = "l1k" -> Lte1(e.a, e.b)
                [] e.fn = "d1k" -> DamLte1(e.a, e.b)
                [] e.fn = "l1b" -> Lte1(e.a, e.b)
                [] e.fn = "d1b" -> DamLte1(e.a, e.b)
                [] e.fn = "l2b" -> Lev(e.a, e.b) <= 2
                [] e.fn = "d2b" -> Osa(e.a, e.b) <= 2
      n == Len(e.a)
      few == CASE e.fn = "l1k" -> 2 * n + 3
               [] e.fn = "d1k" -> 3 * n + 3
               [] e.fn \in {"l1b", "d1b"} -> 4
               [] OTHER -> 9
  IN Chk(need => meet \/ known, "close_strings_share_no_key")
     \cup Chk(need /\ known => meet, "missed_insertion_between_doubled_letters")
     \cup Chk(e.fn = "l1k" /\ meet => Lte1(e.a, e.b), "distant_strings_share_a_key")
     \cup Chk(e.fn = "d1k" /\ meet => Osa(e.a, e.b) <= 2, "distant_strings_share_a_key")
     \cup Chk(Cardinality(Ran(e.ka)) <= few, "too_many_keys")

(* ----- fingerprints ------------------------------------------------------------ *)
Opt(e) == [keep |-> e.keep, squeeze |-> e.squeeze, split |-> Ran(e.split)]
\* plain words, filtered by stop words and minimum size
Kept(e, ws, slack) == { w \in Ran(ws) : w \notin { LoS(e.stop[k]) : k \in DOMAIN e.stop }
                                        /\ (e.min <= 1 \/ Len(w) > e.min \/ (slack /\ Len(w) = e.min)) }
SqS(e, S) == IF e.squeeze THEN { SqueezeS(w) : w \in S } ELSE S
FpVerdict(e) ==
  LET plain == e.stop # <<>> \/ e.min > 1
      ws == FpWords(e.s, e.u, [Opt(e) EXCEPT !.squeeze = FALSE])
      must == SqS(e, IF plain THEN Kept(e, ws, FALSE) ELSE Ran(ws))
      may == SqS(e, IF plain THEN Kept(e, ws, TRUE) ELSE Ran(ws))
      got == Ran(e.r) \ {<<>>}
  IN Chk(\/ e.r = SortedSet(got) \/ (got = {} /\ e.r = <<<<>>>>), "tokens_unique_and_sorted")
     \cup Chk(got \subseteq may, "foreign_token") \cup Chk(must \subseteq got, "token_lost")
     \cup Chk(e.key = JoinWith(e.r, <<32>>), "key_joins_tokens")
FpnVerdict(e) ==
  Chk(e.r = FpGrams(e.n, e.s, e.u, Opt(e)), "ngrams_of_the_letters") \cup Chk(e.key = Concat(e.r), "key_joins_tokens")

(* ----- n-grams -------------------------------------------------------------------- *)
GramVerdict(e) ==
  Chk(e.r = Grams(e.n, e.s), "ngrams") \cup Chk(e.typed, "type_of_grams")
  \cup Chk(e.how # "str" \/ e.joined = e.s, "join_is_inverse") \cup Chk(~e.mutated, "input_mutated")
GramKeyVerdict(e) ==
  Chk(Ran(e.r) = GramKeys(e.n, e.s, e.p, e.q), "ngram_keys")
  \cup Chk(e.r # <<>> /\ e.r[1] = Concat(Grams(e.n, e.s)), "full_key_first")

KeysTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE CASE e.op = "lk" -> LkVerdict(e)
         [] e.op = "fp" -> FpVerdict(e)
         [] e.op = "fpn" -> FpnVerdict(e)
         [] e.op = "grams" -> GramVerdict(e)
         [] e.op = "gramkeys" -> GramKeyVerdict(e)
         [] e.op = "omission" -> Chk(e.r = Omission(Letters(e.s, e.u)), "omission_key")
         [] e.op = "skeleton" -> Chk(e.r = Skeleton(Letters(e.s, e.u)), "skeleton_key")
         [] e.op = "zigzag" -> Chk(e.r = <<e.s, Reverse(e.s)>>, "zig_zag_reads_both_ways")
         [] OTHER -> {"unknown_op"}
=============================================================================
