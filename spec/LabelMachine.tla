---------------------------- MODULE LabelMachine ----------------------------
(***************************************************************************)
(* Labels and clusters.  Items are read one by one, each with its label,   *)
(* and appended to the group of that label, groups being kept in order of  *)
(* first appearance; the groups are then numbered, item by item.           *)
(***************************************************************************)
EXTENDS Base, Json

CONSTANTS Items, Labels, MaxLen, Emit
VARIABLES seq, k, names, groups, labels, g, m, pc
vars == <<seq, k, names, groups, labels, g, m, pc>>
\* seq: pairs <<item, label>>, items distinct
Init == /\ seq \in { [x \in 1..n |-> <<perm[x], lab[x]>>] : <<n, perm, lab>> \in
                       UNION { {n} \X { p \in [1..n -> Items] : IsSetSeq(p) } \X [1..n -> Labels] : n \in 0..MaxLen } }
        /\ k = 1 /\ names = <<>> /\ groups = <<>> /\ labels = {} /\ g = 1 /\ m = 1 /\ pc = "group"
Group == /\ pc = "group" /\ k <= Len(seq)
         /\ LET it == seq[k][1]
                l == seq[k][2]
            IN IF l \in Ran(names)
               THEN LET h == CHOOSE x \in DOMAIN names : names[x] = l
                    IN groups' = [groups EXCEPT ![h] = Append(@, it)] /\ UNCHANGED names
               ELSE names' = Append(names, l) /\ groups' = Append(groups, <<it>>)
         /\ k' = k + 1 /\ UNCHANGED <<seq, labels, g, m, pc>>
Grouped == /\ pc = "group" /\ k > Len(seq) /\ pc' = "number"
           /\ IF Emit THEN PrintT("CASE " \o ToJson([seq |-> seq])) ELSE TRUE
           /\ UNCHANGED <<seq, k, names, groups, labels, g, m>>
Number == /\ pc = "number" /\ g <= Len(groups)
          /\ labels' = labels \cup {<<groups[g][m], g>>}
          /\ IF m = Len(groups[g]) THEN g' = g + 1 /\ m' = 1 ELSE m' = m + 1 /\ UNCHANGED g
          /\ UNCHANGED <<seq, k, names, groups, pc>>
Numbered == /\ pc = "number" /\ g > Len(groups) /\ pc' = "done"
            /\ UNCHANGED <<seq, k, names, groups, labels, g, m>>
Next == Group \/ Grouped \/ Number \/ Numbered
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
\* every item read is in exactly one group, with the items of its label, in order
Grouping == \A h \in DOMAIN groups :
  groups[h] = LET mine == SelectSeq(SubSeq(seq, 1, k - 1), LAMBDA p : p[2] = names[h]) IN [x \in DOMAIN mine |-> mine[x][1]]
FirstSeen == names = Dedup([x \in 1..(k - 1) |-> seq[x][2]])
\* numbering gives the partition back: same label exactly when same number
RoundTrip == pc = "done" => \A a, b \in labels :
  (a[2] = b[2]) <=> \E x, y \in DOMAIN seq : seq[x][1] = a[1] /\ seq[y][1] = b[1] /\ seq[x][2] = seq[y][2]
Total == pc = "done" => { p[1] : p \in labels } = { seq[x][1] : x \in DOMAIN seq } /\ Cardinality(labels) = Len(seq)
Terminates == <>(pc = "done")
=============================================================================
