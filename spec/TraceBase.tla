----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Generic trace-validation machine.  A trace is an ndjson file, one event *)
(* per public call of the implementation.  Each event is judged by the     *)
(* operator Verdict, which maps an event to the set of names of the        *)
(* clauses of the specification that the observed call breaks.  The        *)
(* verdict is total: a rejected event is reported and the walk goes on, so *)
(* every event of the file is judged.  Events are dealt to Lanes           *)
(* independent walkers so that TLC's workers judge them in parallel.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Verdict(_), Lanes

Log == TLCEval(ndJsonDeserialize(IOEnv.VF_TRACE))

VARIABLES lane, l, bad

TraceInit == /\ lane \in 0 .. (Lanes - 1)
             /\ l = lane + 1
             /\ bad = {}

TraceNext == /\ l <= Len(Log)
             /\ bad' = Verdict(Log[l])
             /\ IF bad' = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(Log[l].i) \o " " \o ToString(bad'))
             /\ l' = l + Lanes
             /\ UNCHANGED lane

TraceSpec == TraceInit /\ [][TraceNext]_<<lane, l, bad>>
=============================================================================
