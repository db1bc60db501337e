--------------------------- MODULE SignatureMachine ---------------------------
(***************************************************************************)
(* Minwise signatures: tokens arrive in any order, with repetitions, and   *)
(* each row keeps the smallest hash it has seen.  H is an arbitrary family *)
(* of hash rows, so what is checked holds for every seed.                  *)
(***************************************************************************)
EXTENDS Numeric, Json
CONSTANTS Tokens, Rows, HashMax, MaxLen, Emit
VARIABLES H, a, b, sa, sb, su, ka, kb, pc
vars == <<H, a, b, sa, sb, su, ka, kb, pc>>
Top == [r \in 1..Rows |-> <<HashMax + 1, 0>>]
Upd(s, t) == [r \in 1..Rows |-> Min32(s[r], <<H[r][t], 0>>)]
Init == /\ H \in [1..Rows -> [Tokens -> 0..HashMax]]
        /\ a \in SeqUpTo(Tokens, MaxLen) \ {<<>>} /\ b \in SeqUpTo(Tokens, MaxLen) \ {<<>>}
        /\ sa = Top /\ sb = Top /\ su = Top /\ ka = 0 /\ kb = 0 /\ pc = "run"
ScanA == /\ ka < Len(a) /\ ka' = ka + 1 /\ sa' = Upd(sa, a[ka + 1]) /\ su' = Upd(su, a[ka + 1])
         /\ UNCHANGED <<H, a, b, sb, kb, pc>>
ScanB == /\ kb < Len(b) /\ kb' = kb + 1 /\ sb' = Upd(sb, b[kb + 1]) /\ su' = Upd(su, b[kb + 1])
         /\ UNCHANGED <<H, a, b, sa, ka, pc>>
End == /\ pc = "run" /\ ka = Len(a) /\ kb = Len(b) /\ pc' = "done"
       /\ IF Emit /\ H = [r \in 1..Rows |-> [t \in Tokens |-> 0]]
          THEN PrintT("CASE " \o ToJson([a |-> a, b |-> b])) ELSE TRUE
       /\ UNCHANGED <<H, a, b, sa, sb, su, ka, kb>>
Next == ScanA \/ ScanB \/ End
Spec == Init /\ [][Next]_vars
\* the signature depends on the set only, and the union's is the elementwise minimum
UnionLaw == pc = "done" => su = MinSig(sa, sb)
SetOnly == pc = "done" /\ Ran(a) = Ran(b) => sa = sb
\* the row agrees exactly when a smallest hash of the union lies (by value) in both sets
AgreeLaw == pc = "done" => \A r \in 1..Rows :
  (sa[r] = sb[r]) <=> \E t \in Ran(a), u \in Ran(b) : H[r][t] = H[r][u] /\ \A x \in Ran(a) \cup Ran(b) : H[r][t] <= H[r][x]
=============================================================================
