-------------------------------- MODULE Keys ---------------------------------
(* The host enumerates NK (k,spin) keys in some order and under some labels. *)
(* The library fills keyed containers from several enumerations (wave        *)
(* functions, energies, weights, operators) and combines them.  Checked: the *)
(* combination pairs data of one and the same k-point for every order and    *)
(* labelling, and sums do not depend on either; with data associated by      *)
(* position (BUG) it does not.  Orders and labellings are dumped and run.    *)
EXTENDS Integers, FiniteSets, Sequences, Json, TLC
CONSTANTS NK, LabelSet, Dump, BUG
Labels == IF LabelSet = 1 THEN {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<7, 3>>} ELSE {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}

K == 1..NK
Perms == { p \in [K -> K] : \A a, b \in K : a # b => p[a] # p[b] }
VARIABLES order, lab, pairs, i, pc
vars == <<order, lab, pairs, i, pc>>

\* labels are pairs; containers are sorted by label (std::map)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Lab == { l \in [K -> Labels] : \A a, b \in K : a # b => l[a] # l[b] }
Rank(k) == 1 + Cardinality({ j \in K : Less(lab[j], lab[k]) })
Sorted(r) == CHOOSE k \in K : Rank(k) = r

Init == order \in Perms /\ lab \in Lab /\ pairs = {} /\ i = 1 /\ pc = "go"
\* pair the data of the container (sorted by label) with those of the enumeration
Step ==
  /\ pc = "go"
  /\ IF i > NK THEN pc' = "done" /\ UNCHANGED <<pairs, i>>
     ELSE /\ pairs' = pairs \cup { <<Sorted(i), IF BUG = "byPosition" THEN order[i]
                                               ELSE CHOOSE k \in K : lab[k] = lab[Sorted(i)]>> }
          /\ i' = i + 1 /\ pc' = pc
  /\ UNCHANGED <<order, lab>>
Next == Step
Spec == Init /\ [][Next]_vars
Matched == pc = "done" => pairs = { <<k, k>> : k \in K }
DumpInv == (Dump /\ pc = "done") =>
  PrintT("CONFIG " \o ToJson([order |-> [k \in K |-> order[k] - 1], keys |-> [k \in K |-> lab[k]]]))
=============================================================================
