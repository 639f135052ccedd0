------------------------------ MODULE ResCheck -------------------------------
(* Resources measured in the real process:                                   *)
(*   pts  : after every call of a cycle of calls made again and again        *)
(*          (kind "calls"), or at every evaluation of one call ("evals"),    *)
(*   cyc  : length of the cycle (1 for evaluations),                         *)
(*   warm : cycles ignored at the beginning (what is made once).             *)
(* A resource is lost when, at the same place of the cycle, the middle third *)
(* of the measurements lies above the first and the last above the middle    *)
(* one: a leak grows without bound, a cache does not.  Handles of the host   *)
(* never outlive a call.  kept: the settings of the process (rounding mode,  *)
(* stream formats, locale, directory, signal handlers, environment) are      *)
(* those before the call.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, bad
vars == <<ti, pos, bad>>
T == Traces[ti]
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
Names == {"heap", "bytes", "fd", "thread", "type", "comm", "group", "op", "handle"}
Slack(r) == IF r = "bytes" THEN 1024 ELSE 0
What(r) == CASE r \in {"heap", "bytes"} -> "memory" [] r = "fd" -> "open files" [] r = "thread" -> "threads"
             [] r = "type" -> "MPI datatypes" [] r = "comm" -> "communicators" [] r = "group" -> "MPI groups"
             [] r = "op" -> "MPI operations" [] OTHER -> "handles of the host"
N == Len(T.pts)
Cycles == N \div T.cyc
Use == Cycles - T.warm
Third == Use \div 3
At(c, p) == T.pts[(c - 1) * T.cyc + p]
First == (T.warm + 1)..(T.warm + Third)
Mid == (T.warm + Third + 1)..(T.warm + 2 * Third)
Last == (T.warm + 2 * Third + 1)..(T.warm + 3 * Third)
Above(A, B, r, p) == \A a \in A, b \in B : At(b, p)[r] > At(a, p)[r] + Slack(r)
Grows(r, p) == Third > 2 /\ Above(First, Mid, r, p) /\ Above(Mid, Last, r, p)
Why(r) == What(r) \o (IF T.kind = "calls" THEN " held by the process grow with the number of calls"
                      ELSE " held during a call grow with the number of evaluations")
Next ==
  /\ pos < T.cyc + 1 /\ pos' = pos + 1 /\ ti' = ti
  /\ bad' = bad \cup
     (IF pos < T.cyc THEN {<<"C26", Why(r)>> : r \in {x \in Names : Grows(x, pos + 1)}}
      ELSE (IF T.kind = "calls" /\ \E i \in 1..N : T.pts[i].handle # 0
            THEN {<<"C26", "handles of the host outlive the call">>} ELSE {})
           \cup (IF \E i \in 1..N : ~T.pts[i].kept THEN {<<"C26", "a call changes settings of the process">>} ELSE {})
           \cup (IF N # T.want THEN {<<"C26", "the process does not survive the calls">>} ELSE {}))
Spec == Init /\ [][Next]_vars
Verdict == pos = T.cyc + 1 => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
