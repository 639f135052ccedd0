-------------------------------- MODULE Params -------------------------------
(* What the parameters of a call may influence.  A run is a sequence of      *)
(* accepted points.  What happens at a point (its slope class, whether the   *)
(* quadratic step fails there) is an arbitrary function of the point, that   *)
(* is of the way the run came there: the kinds of the directions and, where  *)
(* backtracking was needed, tau.  Two calls on the same problem whose        *)
(* parameters differ in one or two places run side by side.  Checked:        *)
(*  - maxiter and tol only decide where the run stops: the points of the     *)
(*    shorter run are the first points of the longer one;                    *)
(*  - restart matters only from the first iteration on that it makes steepest *)
(*    descent in one of the runs (the one after a multiple of it);           *)
(*  - tau matters only from the first backtracking on.                       *)
(* The pairs are dumped and given to the real code, where the common part of *)
(* the two runs has to be the same bit for bit.                              *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxIt, Dump, BUG

Pars == [maxiter : 1..MaxIt, tol : 0..2, restart : 1..3, tau : 1..2]
Diff(p, q) == (IF p.maxiter # q.maxiter THEN 1 ELSE 0) + (IF p.tol # q.tol THEN 1 ELSE 0)
              + (IF p.restart # q.restart THEN 1 ELSE 0) + (IF p.tau # q.tau THEN 1 ELSE 0)

\* points: sequences of steps; slope class (0 smallest) and failure of the quadratic step at the i-th point
VARIABLES par, sl, bt, run, stop
vars == <<par, sl, bt, run, stop>>

Base == [maxiter |-> MaxIt - 1, tol |-> 1, restart |-> 2, tau |-> 1]
Init ==
  /\ par \in { <<Base, q>> : q \in { x \in Pars : Diff(Base, x) \in 1..2 } }
  /\ sl \in [0..MaxIt -> {0, 1, 3}] /\ bt \in { [i \in 0..MaxIt |-> i \in s] : s \in { {} , 0..MaxIt } \cup { {i} : i \in 0..MaxIt } }
  /\ run = <<<<>>, <<>>>> /\ stop = <<FALSE, FALSE>>

Kind(p, n) == LET r == IF BUG = "restartBudget" /\ p.restart > p.maxiter - 2 THEN (IF p.maxiter > 2 THEN p.maxiter - 2 ELSE 1) ELSE p.restart IN
              IF n = 0 \/ (n - 1) % r = 0 \/ (BUG = "lastIter" /\ n = p.maxiter - 1) THEN "SD" ELSE "CG"
Step(a) ==
  LET p == par[a] n == Len(run[a]) IN
  /\ ~stop[a]
  /\ IF n = p.maxiter \/ sl[n] < p.tol THEN stop' = [stop EXCEPT ![a] = TRUE] /\ UNCHANGED run
     ELSE /\ run' = [run EXCEPT ![a] = Append(@, [kind |-> Kind(p, n),
                       tau |-> IF bt[n] \/ BUG = "tauTrial" THEN p.tau ELSE 0,
                       sl |-> IF BUG = "tolStep" THEN p.tol ELSE 0])]
          /\ UNCHANGED stop
  /\ UNCHANGED <<par, sl, bt>>
Next == IF ~stop[1] THEN Step(1) ELSE Step(2)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Min(a, b) == IF a < b THEN a ELSE b
Common == Min(Len(run[1]), Len(run[2]))
\* number of steps that have to be the same
FirstBt == LET s == { i \in 0..MaxIt : bt[i] } IN IF s = {} THEN 99 ELSE CHOOSE i \in s : \A j \in s : i <= j
FirstDiff == { n \in 1..MaxIt : ((n - 1) % par[1].restart = 0) # ((n - 1) % par[2].restart = 0) }
SameUntil ==
  Min(IF par[1].restart = par[2].restart \/ FirstDiff = {} THEN 99 ELSE CHOOSE i \in FirstDiff : \A j \in FirstDiff : i <= j,
      IF par[1].tau = par[2].tau THEN 99 ELSE FirstBt)
Shared == \A i \in 1..Min(Common, SameUntil) : run[1][i] = run[2][i]
\* the shorter run is shorter only because of its budget or tolerance
Order == (stop[1] /\ stop[2] /\ par[1].restart = par[2].restart /\ par[1].tau = par[2].tau) =>
  ((par[1].maxiter <= par[2].maxiter /\ par[1].tol >= par[2].tol) => Len(run[1]) <= Len(run[2]))
Ends == <>(stop[1] /\ stop[2])
DumpInv == (Dump /\ run = <<<<>>, <<>>>> /\ stop = <<FALSE, FALSE>> /\ (\A i \in 0..MaxIt : sl[i] = 3 /\ ~bt[i])) =>
  PrintT("CONFIG " \o ToJson([base |-> par[1], other |-> par[2]]))
=============================================================================
