--------------------------- MODULE PhoneticsTrace ---------------------------
(* Judges recorded calls of fog.phonetics. *)
EXTENDS Phonetics, TraceBase
PhoneticsTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE CASE e.op = "cologne" -> Chk([k \in DOMAIN e.r |-> e.r[k] - 48] = Cologne(e), "cologne_code")
         [] e.op = "rusalka" -> Chk(e.r = Rusalka(e), "rusalka_form")
         [] OTHER -> {"unknown_op"}
=============================================================================
