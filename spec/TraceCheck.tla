------------------------------ MODULE TraceCheck ------------------------------
(* Every trace recorded from the real library must be a behaviour the       *)
(* acceptor Monitor allows.  All traces of the file are checked; a verdict  *)
(* line is printed for each, so that one violation does not hide another.   *)
EXTENDS Monitor, Json, TLC

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES ti, pos, m
vars == <<ti, pos, m>>

Init == ti \in 1..Len(Traces) /\ pos = 0 /\ m = MInit
Next ==
  /\ pos < Len(Traces[ti].ev)
  /\ pos' = pos + 1
  /\ m' = Observe(Traces[ti].cfg, m, Traces[ti].ev[pos + 1])
  /\ ti' = ti
Spec == Init /\ [][Next]_vars

Verdict ==
  pos = Len(Traces[ti].ev) =>
    PrintT(<<"VERDICT", Traces[ti].id, IF m.bad = {} THEN "ok" ELSE "bad", m.bad, m.n, m.nrec>>)
=============================================================================
