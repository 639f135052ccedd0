------------------------------ MODULE Resources ------------------------------
(* What the library holds of the process: memory, MPI datatypes and          *)
(* communicators, open files, threads and the handles obtained from the      *)
(* host.  A process makes a sequence of calls; a call goes through           *)
(* iterations with uses of resources and ends in one of several ways.  What  *)
(* is needed once is made on first use and kept ("once"), everything else    *)
(* belongs to the frame that made it ("call", "iter", "use") and goes with   *)
(* it, however the frame is left.  The log file stays open until the next    *)
(* call attaches it again ("slot": at most one).                             *)
(* BUG: "perUse" what should be made once is made on every use, "perIter"    *)
(* iterations keep what the previous one held, "onError" a call that ends by *)
(* an error keeps its handles, "perCall" every call adds a log slot, "early" *)
(* a refused call keeps what it had made before it was refused.              *)
(* The call histories (cycles of endings) are dumped and repeated in the     *)
(* real code.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxCyc, Rounds, MaxIt, Dump, BUG
Ends == {"done", "conv", "nodescent", "hosterr", "refused"}
VARIABLES cyc,      \* the cycle of endings
          k,        \* calls made
          ph,       \* "idle", "call", "iter"
          it,       \* iterations of the running call
          held,     \* [once, slot, call, iter, use -> number]
          log,      \* total held after each call
          atEval    \* total held at the evaluations of the running call
vars == <<cyc, k, ph, it, held, log, atEval>>
Kinds == {"once", "slot", "call", "iter", "use"}
Cycles == UNION {[1..n -> Ends] : n \in 1..MaxCyc}
Sum(h) == h["once"] + h["slot"] + h["call"] + h["iter"] + h["use"]
Total == Len(cyc) * Rounds
End == cyc[(k % Len(cyc)) + 1]
Init == cyc \in Cycles /\ k = 0 /\ ph = "idle" /\ it = 0 /\ held = [x \in Kinds |-> 0] /\ log = <<>> /\ atEval = <<>>

Refuse == /\ ph = "idle" /\ k < Total /\ End = "refused"
          /\ held' = IF BUG = "early" THEN [held EXCEPT !["call"] = @ + 1] ELSE held
          /\ log' = Append(log, Sum(held')) /\ k' = k + 1 /\ UNCHANGED <<cyc, ph, it, atEval>>
Start == /\ ph = "idle" /\ k < Total /\ End # "refused"
         /\ held' = [held EXCEPT !["call"] = @ + 1, !["slot"] = IF BUG = "perCall" THEN @ + 1 ELSE 1]
         /\ ph' = "call" /\ it' = 0 /\ atEval' = <<>> /\ UNCHANGED <<cyc, k, log>>
Iterate == /\ ph = "call" /\ it < MaxIt
           /\ held' = [held EXCEPT !["iter"] = IF BUG = "perIter" THEN @ + 1 ELSE 1, !["use"] = 1,
                                   !["once"] = IF BUG = "perUse" THEN @ + 1 ELSE 1]
           /\ ph' = "iter" /\ it' = it + 1 /\ atEval' = Append(atEval, Sum(held')) /\ UNCHANGED <<cyc, k, log>>
Step == /\ ph = "iter" /\ ph' = "call" /\ held' = [held EXCEPT !["use"] = 0] /\ UNCHANGED <<cyc, k, it, log, atEval>>
(* the endings: out of iterations or converged or without descent between two iterations, a host error anywhere *)
Finish == /\ \/ ph = "call" /\ it = MaxIt /\ End = "done"
             \/ ph = "call" /\ it > 0 /\ End \in {"conv", "nodescent"}
             \/ ph \in {"call", "iter"} /\ End = "hosterr"
          /\ held' = [held EXCEPT !["iter"] = 0, !["use"] = 0,
                                  !["call"] = IF BUG = "onError" /\ End = "hosterr" THEN @ ELSE 0]
          /\ log' = Append(log, Sum(held')) /\ k' = k + 1 /\ ph' = "idle" /\ UNCHANGED <<cyc, it, atEval>>
Next == Refuse \/ Start \/ Iterate \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

(* nothing but what is made once and the slot outlives a call *)
Nothing == ph = "idle" => held["call"] = 0 /\ held["iter"] = 0 /\ held["use"] = 0
(* what is held after a call does not grow with the number of calls (after the first that iterated) *)
Bounded == \A i \in 1..Len(log) : log[i] <= 2
(* nor what is held during a call with the number of iterations *)
Flat == \A i, j \in 1..Len(atEval) : i < j => atEval[j] <= atEval[i]
DumpInv == (Dump /\ k = 0 /\ ph = "idle") => PrintT("CONFIG " \o ToJson([cyc |-> cyc]))
=============================================================================
