----------------------------- MODULE HostCheck -------------------------------
(* Calls of the real library to the host: c kind of call, fresh whether the  *)
(* state of the host is the evaluated one, late whether the library call has *)
(* already ended; "thread" is a call from a thread other than the caller's.  *)
(* The state machine follows HostProto: results are read only for the        *)
(* evaluated state, an evaluation follows every hand-over before results are *)
(* used again, and nothing is asked after the end.                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, evald, bad
vars == <<ti, pos, evald, bad>>
T == Traces[ti]
E == T.calls[pos + 1]
Results == {"etot", "comps", "mH", "vek"}
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ evald = FALSE /\ bad = {}
V(w) == {<<"C27", w>>}
Next ==
  /\ pos < Len(T.calls) /\ pos' = pos + 1 /\ ti' = ti
  /\ evald' = (evald \/ E.c = "compute")
  /\ bad' = bad \cup
       (IF E.c = "thread" THEN V("the host is called from a thread other than the caller's") ELSE {})
       \cup (IF E.late /\ E.c # "thread" THEN V("the host is called after the end of the call") ELSE {})
       \cup (IF E.c \in Results /\ ~evald THEN V("results of the host are read before it was evaluated") ELSE {})
       \cup (IF E.c \in Results /\ evald /\ ~E.fresh THEN V("results of the host are read for a state that was not evaluated") ELSE {})
Spec == Init /\ [][Next]_vars
Verdict == pos = Len(T.calls) => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
