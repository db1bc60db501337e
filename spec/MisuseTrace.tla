----------------------------- MODULE MisuseTrace -----------------------------
(* Judges recorded calls with right and wrong options. *)
EXTENDS Misuse, TraceBase
\* e.r: "ok" or the name of what was raised; e.before: how many answers came before
MisuseTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE IF Refused(e)
  THEN Chk(e.r # "ok", "wrong_option_accepted") \cup Chk(e.r \in {"ok", "TypeError"}, "wrong_kind_of_error")
       \cup Chk(e.before = 0, "answers_before_refusing")
  ELSE Chk(e.r = "ok", "right_options_refused")
=============================================================================
