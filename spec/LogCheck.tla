------------------------------- MODULE LogCheck ------------------------------
(* Files and console left by the real logger against LogSpec.  files[r]:     *)
(* files that only rank r can have written; con[r]: its console output.      *)
EXTENDS LogSpec, FiniteSets, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, st
vars == <<ti, pos, st>>
T == Traces[ti]
R == 0..(T.nr - 1)
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ st = [r \in R |-> Fresh]
Next == /\ pos < Len(T.cmds) /\ pos' = pos + 1 /\ ti' = ti
        /\ st' = [r \in R |-> Do(st[r], r, T.cmds[pos + 1])]
Spec == Init /\ [][Next]_vars
V(w) == {<<"C19", w>>}
Want == UNION { { <<f, st[r].files[f]>> : f \in DOMAIN st[r].files } : r \in R }
Got == { <<T.files[i][1], T.files[i][2]>> : i \in 1..Len(T.files) }
Bad == (IF { x[1] : x \in Want } # { x[1] : x \in Got } THEN V("wrong set of log files")
        ELSE IF Want # Got THEN V("text in a log file differs from what was sent to it") ELSE {})
  \cup (IF \E r \in R : T.con[r + 1] # st[r].con
        THEN V(IF \E r \in R : r > 0 /\ T.con[r + 1] # "" THEN "console output on a rank other than the master" ELSE "console output differs from what was sent there") ELSE {})
Verdict == pos = Len(T.cmds) => PrintT(<<"VERDICT", T.id, IF Bad = {} THEN "ok" ELSE "bad", Bad, pos, 0>>)
=============================================================================
