---------------------------- MODULE GroundCheck ------------------------------
(* Runs of the real code on convex problems against the certificate of       *)
(* Ground.tla.  ex: energies of the evaluations above the bound taken from   *)
(* the mean field of the final state, in units of 1e-9 (clipped); sl: how    *)
(* far below rounding may take them; acc: those of the accepted points; conv *)
(* the run said it converged; easy: problems it has to solve; sharp: every   *)
(* level still responds, so that vanishing slopes mean the minimum; gap, tol *)
(* hundredths of decades of 1/(distance of the result from the bound) and of *)
(* kappa / tolerance.                                                        *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, i, low, bad
vars == <<ti, i, low, bad>>
T == Traces[ti]
V(x) == {<<"C32", x>>}
Init == ti \in 1..Len(Traces) /\ i = 0 /\ low = FALSE /\ bad = {}
Next == /\ i < Len(T.ex) /\ i' = i + 1 /\ ti' = ti
        /\ low' = (low \/ T.ex[i + 1] < 0 - T.sl)
        /\ bad' = IF low' /\ ~low THEN V("an energy below the minimum of the problem") ELSE bad
Spec == Init /\ [][Next]_vars
AtEnd == (IF T.sharp /\ T.conv /\ T.gap < T.tol - 250
          THEN V("converged, but not at the minimum of the problem") ELSE {})
         \cup (IF T.sharp /\ T.easy /\ ~T.conv THEN V("the minimum of an easy problem is not found") ELSE {})
Verdict == i = Len(T.ex) => LET all == bad \cup AtEnd IN
  PrintT(<<"VERDICT", T.id, IF all = {} THEN "ok" ELSE "bad", all, i, IF i > 0 THEN 1 ELSE 0>>)
=============================================================================
