------------------------------ MODULE TextCheck ------------------------------
(* The text log of complete calls.  file: lines of the log file left by the  *)
(* process; ref: lines left by the last call made alone (if hasRef); con[r]: *)
(* console lines of rank r.  The log holds the text of the last call only;   *)
(* console text appears on the master only and in the log too, in order.     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, i, j, bad
vars == <<ti, i, j, bad>>
T == Traces[ti]
V(w) == {<<"C19", w>>}
Init == ti \in 1..Len(Traces) /\ i = 0 /\ j = 0
  /\ bad = (IF \E r \in 2..Len(T.con) : T.con[r] # <<>> THEN V("console output on a rank other than the master") ELSE {})
      \cup (IF ~T.exists THEN V("no log file was written") ELSE {})
      \cup (IF T.hasRef /\ T.file # T.ref THEN V("the log of a call depends on earlier calls of the process") ELSE {})
\* console line j+1 is looked for in the remaining file
Next == /\ j < Len(T.con[1]) /\ ti' = ti
        /\ IF i >= Len(T.file) THEN j' = Len(T.con[1]) /\ i' = i /\ bad' = bad \cup V("console text is missing in the log file or in another order")
           ELSE /\ i' = i + 1 /\ bad' = bad
                /\ j' = IF T.file[i + 1] = T.con[1][j + 1] THEN j + 1 ELSE j
Spec == Init /\ [][Next]_vars
Verdict == j = Len(T.con[1]) => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, i, j>>)
=============================================================================
