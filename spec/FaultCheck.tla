----------------------------- MODULE FaultCheck ------------------------------
(* Runs in which the host raised an error at a chosen callback:              *)
(*   ref   : observations of the undisturbed run,                            *)
(*   run   : observations of the disturbed run up to its end,                *)
(*   fired : the error was raised,  want/got : error raised / delivered,     *)
(*   muts  : callbacks after the error that change the host or evaluate it,  *)
(*   same  : state of the host untouched since the error,                    *)
(*   next  : observations of the same run made afterwards in this process.   *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, bad
vars == <<ti, pos, bad>>
T == Traces[ti]
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
If(c, r) == IF c THEN {<<"C24", r>>} ELSE {}
N == Len(T.run)
Steps == N + 1
Next ==
  /\ pos < Steps /\ pos' = pos + 1 /\ ti' = ti
  /\ bad' = bad \cup
     (IF pos < N
      THEN If(pos + 1 > Len(T.ref) \/ (pos + 1 <= Len(T.ref) /\ T.run[pos + 1] # T.ref[pos + 1]),
              "the run differs from the undisturbed one before the failure")
      ELSE If(T.dead, "the process does not survive a failing host callback")
           \cup If(~T.fired /\ ~T.dead /\ N # Len(T.ref), "the run differs from the undisturbed one")
           \cup If(T.fired /\ ~T.dead /\ T.got = "result", "a failing host callback is swallowed: the call returns a result")
           \cup If(T.fired /\ ~T.dead /\ T.got \notin {"result", T.want}, "the caller gets another error than the host raised")
           \cup If(T.fired /\ T.muts > 0, "the host is changed or evaluated after it failed")
           \cup If(T.fired /\ ~T.same, "state of the host changed after it failed")
           \cup If(~T.dead /\ T.next # T.ref, "a run after a failed one gives another result"))
Spec == Init /\ [][Next]_vars
Verdict == pos = Steps => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
