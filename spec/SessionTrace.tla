---------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded sessions: e.solo[c] what call c answers on its own      *)
(* (e.fresh[c] in a process that did nothing else, e.iterables[c] when the *)
(* items come in another iterable),                                        *)
(* e.steps the acts of the session with what came back (Finished at the    *)
(* end of a call), e.after[c] what the call answers once all is over.      *)
EXTENDS Sessions, TraceBase
RECURSIVE Walk(_, _, _)
Walk(e, k, at) ==
  IF k > Len(e.steps) THEN {}
  ELSE LET s == e.steps[k]
           a == <<s.act, s.c>>
       IN IF s.act = "next" /\ at[s.c] = Closed THEN {"interleaved_answer"}      \* more answers than there are
          ELSE (IF s.act = "next" THEN Chk(s.r = Answer(e.solo, at, s.c), "interleaved_answer") ELSE {})
          \cup Walk(e, k + 1, Effect(e.solo, at, a))
SessionTraceVerdict(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE Chk(e.kept, "input_altered")
       \cup Chk(e.fresh = e.solo, "same_answer_as_in_a_fresh_process")
       \cup Chk(e.again = e.solo, "same_call_same_answer")
       \cup Walk(e, 1, [c \in {1, 2} |-> Closed])
       \cup Chk(e.after = e.solo, "same_call_same_answer_later")
       \cup Chk(e.iterables = e.solo, "any_iterable")
=============================================================================
