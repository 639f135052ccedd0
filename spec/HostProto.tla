------------------------------ MODULE HostProto ------------------------------
(* How the library uses the host during one call.  The host is a sequential  *)
(* object: its state (coefficients, occupations) is changed by "write" and   *)
(* "give", "eval" makes its results (energy, Hamiltonian, band energies)     *)
(* belong to the state, "read" fetches results, "op" applies operators.      *)
(* Operators are applied inside computations that are created first and      *)
(* forced later (per key); forcing runs the computation on the thread that   *)
(* forces it.  Computations nobody forces are dropped.                       *)
(* BUG: "async" a computation is started by another thread when it is made,  *)
(* "stale" results are read for a state that was not evaluated, "restore"    *)
(* after a rejected step the state is put back without evaluating it,        *)
(* "drop" dropped computations are run when the call has ended, "lost" the   *)
(* line search moves on with computations of the previous point.             *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxStep, Dump, BUG
VARIABLES pc,      \* "start", "move", "eval", "read", "dir", "end"
          st, ev,  \* number of the current state of the host and of the evaluated one
          tasks,   \* set of [pt, on] computations made (for state pt), on: thread that will run it
          log,     \* the last host call: [c, thr, fresh, pt]
          n, hist
vars == <<pc, st, ev, tasks, log, n, hist>>
None == [c |-> "none", thr |-> "main", fresh |-> TRUE, own |-> TRUE]
Call(c, thr, own) == [c |-> c, thr |-> thr, fresh |-> ev = st, own |-> own]
Init == pc = "start" /\ st = 0 /\ ev = -1 /\ tasks = {} /\ log = None /\ n = 0 /\ hist = <<>>
Say(c, thr, own) == log' = Call(c, thr, own) /\ hist' = (IF Len(hist) < 12 THEN Append(hist, c) ELSE hist)
Begin == pc = "start" /\ ev' = 0 /\ pc' = "read" /\ Say("eval", "main", TRUE) /\ UNCHANGED <<st, tasks, n>>
Read == pc = "read" /\ Say("read", "main", TRUE) /\ pc' = "dir" /\ UNCHANGED <<st, ev, tasks, n>>
(* the direction at this point: computations are made, some are forced *)
Make == /\ pc = "dir" /\ Cardinality(tasks) < 2
        /\ tasks' = tasks \cup {[pt |-> st, on |-> IF BUG = "async" THEN "worker" ELSE "main"]}
        /\ UNCHANGED <<pc, st, ev, log, n, hist>>
Force == /\ pc \in {"dir", "move"} /\ \E t \in tasks :
           /\ t.on = "main" /\ (pc = "move" => BUG = "lost")
           /\ tasks' = tasks \ {t} /\ Say("op", "main", t.pt = st)
         /\ UNCHANGED <<pc, st, ev, n>>
Worker == /\ \E t \in tasks : t.on = "worker" /\ tasks' = tasks \ {t} /\ Say("op", "worker", t.pt = st)
          /\ UNCHANGED <<pc, st, ev, n>>
Leave == pc = "dir" /\ n < MaxStep /\ pc' = "move" /\ n' = n + 1 /\ tasks' = (IF BUG = "lost" THEN tasks ELSE {})
         /\ UNCHANGED <<st, ev, log, hist>>
Write == pc = "move" /\ st' = st + 1 /\ Say("write", "main", TRUE)
         /\ pc' = (IF BUG = "stale" THEN "read" ELSE "eval") /\ UNCHANGED <<ev, tasks, n>>
Eval == /\ pc = "eval" /\ ev' = st /\ Say("eval", "main", TRUE) /\ pc' = "try" /\ UNCHANGED <<st, tasks, n>>
Energy == pc = "try" /\ log.c = "eval" /\ Say("read", "main", TRUE) /\ UNCHANGED <<pc, st, ev, tasks, n>>
Accept == pc = "try" /\ log.c = "read" /\ pc' = "read" /\ UNCHANGED <<st, ev, tasks, log, n, hist>>
Reject == /\ pc = "try" /\ log.c = "read" /\ n < MaxStep /\ n' = n + 1
          /\ IF BUG = "restore" THEN st' = st + 1 /\ Say("write", "main", TRUE) /\ pc' = "read"
             ELSE pc' = "move" /\ UNCHANGED <<st, log, hist>>
          /\ UNCHANGED <<ev, tasks>>
Return == pc = "dir" /\ pc' = "end" /\ tasks' = (IF BUG = "drop" THEN tasks ELSE {}) /\ UNCHANGED <<st, ev, log, n, hist>>
Late == pc = "end" /\ \E t \in tasks : tasks' = tasks \ {t} /\ Say("op", "main", TRUE) /\ pc' = "after" /\ UNCHANGED <<st, ev, n>>
Next == Begin \/ Read \/ Make \/ Force \/ Worker \/ Leave \/ Write \/ Eval \/ Energy \/ Accept \/ Reject \/ Return \/ Late
Spec == Init /\ [][Next]_vars

Serial == log.thr = "main"
Fresh == log.c = "read" => log.fresh
OfThisPoint == log.c = "op" => log.own
NoneAfter == pc # "after"
DumpInv == (Dump /\ pc = "end") => PrintT("CONFIG " \o ToJson([calls |-> hist]))
=============================================================================
