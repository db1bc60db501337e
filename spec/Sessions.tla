------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Two users of the library in one process, each with a call of its own    *)
(* whose answers it takes one at a time.  A call is opened on some input,  *)
(* asked for its next answer, dropped before its end, opened again.  What  *)
(* a call answers depends on its input only: ans[c] is the sequence of     *)
(* answers to the input of user c, whatever the other user does meanwhile. *)
(***************************************************************************)
EXTENDS Base

Closed == -1
Finished == 0          \* the answer "there is nothing more"
\* at[c]: number of answers already taken, or Closed
CanOpen(at, c) == TRUE                                   \* opening again starts a new call
CanNext(at, c) == at[c] # Closed
CanDrop(at, c) == at[c] # Closed
Answer(ans, at, c) == IF at[c] < Len(ans[c]) THEN ans[c][at[c] + 1] ELSE Finished
AfterOpen(at, c) == [at EXCEPT ![c] = 0]
AfterNext(ans, at, c) == [at EXCEPT ![c] = IF @ < Len(ans[c]) THEN @ + 1 ELSE Closed]
AfterDrop(at, c) == [at EXCEPT ![c] = Closed]
\* an act is <<"open" | "next" | "drop", c>>
Effect(ans, at, a) ==
  CASE a[1] = "open" -> AfterOpen(at, a[2])
    [] a[1] = "next" -> AfterNext(ans, at, a[2])
    [] a[1] = "drop" -> AfterDrop(at, a[2])
=============================================================================
