------------------------------- MODULE Monitor -------------------------------
(***************************************************************************)
(* Acceptor for the observable behaviour of one minimisation call.         *)
(*                                                                         *)
(* Observe(cfg, m, e) consumes one abstract event e (a host callback, a    *)
(* record of the step log, or the end of the call) in monitor state m and  *)
(* returns the next state; m.bad collects <<property, reason>> pairs.      *)
(*                                                                         *)
(* Used twice: as invariant over every behaviour of the design NlcgDesign, *)
(* and by TraceCheck over every trace recorded from the real library.      *)
(*                                                                         *)
(* Real numbers are abstracted before they get here: orderings of free     *)
(* energies ("lt","eq","gt","any"), classes of step lengths, curvature     *)
(* classes, and errors as number of correct decimal digits.                *)
(* Where rounding makes a class ambiguous the event carries several        *)
(* classes and the monitor follows all of them (subset construction).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in DOMAIN s}

(* thresholds, in correct decimal digits (absolute unless stated) *)
D_ORTH == 8    \* S-orthonormality
D_NE   == 9    \* electron count
D_COL  == 4    \* trial points of one line search on one path (relative)
D_DIR  == 4    \* direction vs oracle (relative)
D_GAM  == 4    \* Fletcher-Reeves weight (relative)
D_OCC  == 6    \* occupations vs smearing formula
D_ENG  == 9    \* energies (relative)
D_BASE == 11   \* wave functions left in the host vs those of the accepted point (absolute)
D_SLOPE == 2   \* directional derivative (relative, finite differences)

LsInit(frs) == { [s |-> "T", k |-> 0, fr |-> f] : f \in frs }

MInit == [ n    |-> 0,          \* evaluations so far
           nrec |-> 0,          \* records so far
           sl   |-> "none",     \* slope class of the last record
           ph   |-> "init",     \* init / ls / end
           ls   |-> {},         \* line-search states (subset construction)
           first |-> FALSE,     \* next evaluation is the first after a record
           frs  |-> {FALSE},    \* possible values of force_restart
           sf   |-> FALSE,      \* occupations handed over since last evaluation
           mup  |-> FALSE,      \* chemical potential still owed for last evaluation
           rej  |-> FALSE,      \* last evaluation was a rejected trial
           lastk |-> "none",
           bad  |-> {} ]

Flag(m, P) == [m EXCEPT !.bad = @ \cup P]
If(c, p, r) == IF c THEN {<<p, r>>} ELSE {}

-----------------------------------------------------------------------------
(* line search: successors of one state under one evaluation *)
AfterTrial(cfg, k, cv, fr) ==
  (IF "conc" \in cv THEN {[s |-> "T", k |-> k + 1, fr |-> fr]} ELSE {}) \cup
  (IF "conv" \in cv THEN {[s |-> "M", k |-> 0, fr |-> fr]} ELSE {}) \cup
  (IF "flat" \in cv THEN {IF cfg.nbt > 0 THEN [s |-> "B", k |-> 0, fr |-> fr]
                                         ELSE [s |-> "Z", k |-> 0, fr |-> fr]} ELSE {})

LsStep(cfg, x, e) ==
  CASE x.s = "T" -> IF x.k \in Rng(e.tr) THEN AfterTrial(cfg, x.k, Rng(e.cv), x.fr) ELSE {}
    [] x.s = "M" -> IF e.mn
                    THEN (IF e.cmp \in {"lt", "eq", "any"} THEN {[s |-> "A", k |-> 0, fr |-> FALSE]} ELSE {})
                         \cup (IF e.cmp \in {"gt", "any"} THEN {[s |-> "B", k |-> 0, fr |-> x.fr]} ELSE {})
                    ELSE {}
    [] x.s = "B" -> IF x.k \in Rng(e.bt)
                    THEN (IF e.cmp \in {"lt", "any"} THEN {[s |-> "A", k |-> 0, fr |-> FALSE]} ELSE {})
                         \cup (IF e.cmp \in {"eq", "gt", "any"}
                               THEN {IF x.k + 1 < cfg.nbt THEN [s |-> "B", k |-> x.k + 1, fr |-> x.fr]
                                                          ELSE [s |-> "Z", k |-> 0, fr |-> x.fr]}
                               ELSE {})
                    ELSE {}
    [] x.s = "Z" -> IF e.zero
                    THEN {IF x.fr THEN [s |-> "G", k |-> 0, fr |-> TRUE]      \* give up
                                  ELSE [s |-> "A", k |-> 1, fr |-> TRUE]}     \* reset
                    ELSE {}
    [] x.s = "L" -> {x}                                                       \* lost track (already reported)
    [] OTHER -> {}

Lost(frs) == { [s |-> "L", k |-> 0, fr |-> f] : f \in {FALSE, TRUE} }
Accepted(m) == { x \in m.ls : x.s \in {"A", "L"} }
GaveUp(m)   == { x \in m.ls : x.s \in {"G", "L"} }

(* direction policy: possible force_restart values after seeing the direction kind *)
DirStep(cfg, m, e) ==
  LET must == m.nrec = 1 \/ ((m.nrec - 2) % cfg.restart) = 0 IN
  UNION { IF f \/ must THEN (IF "SD" \in Rng(e.kind) THEN {f} ELSE {})
          ELSE (IF "CG" \in Rng(e.kind) /\ e.up \in {"no", "any"} THEN {FALSE} ELSE {})
               \cup (IF "SD" \in Rng(e.kind) /\ e.up \in {"yes", "any"} THEN {TRUE} ELSE {})
          : f \in m.frs }

-----------------------------------------------------------------------------
OnEval(cfg, m, e) ==
  LET n    == m.n + 1
      frsK == IF m.first THEN DirStep(cfg, m, e) ELSE m.frs
      frs  == IF frsK = {} THEN {FALSE, TRUE} ELSE frsK
      ls0  == IF m.first THEN LsInit(frs) ELSE m.ls
      ls1  == IF m.ph # "ls" THEN {} ELSE UNION { LsStep(cfg, x, e) : x \in ls0 }
      b ==    If(m.first /\ frsK = {} /\ e.kind # <<>>, "C04", "direction kind not allowed by the restart policy")
         \cup If(m.ph = "ls" /\ m.sl = "tiny", "C03", "evaluation after the slope was below the tolerance")
         \cup If(m.ph = "ls" /\ m.sl = "pos", "C04", "line search along an ascent direction")
         \cup If(m.ph = "ls" /\ m.sl = "pos", "C21", "line search along an ascent direction")
         \cup If(m.ph = "init" /\ n > 2, "C21", "more than one evaluation before the first iteration")
         \cup If(m.ph = "ls" /\ ls1 = {}, "C21", "step not allowed by the line search")
         \cup If(m.ph = "ls" /\ ls1 = {} /\ ls0 # {} /\ (\A x \in ls0 : x.s \in {"A", "G"}), "C13",
                 "new line search without a record")
         \cup If(n > 1 /\ ~m.sf, "C05", "evaluation without fresh occupations")
         \cup If(~e.intact, "C05", "input buffer of the host modified")
         \cup If(~e.intact, "C14", "input buffer of the host modified")
         \cup If(e.stray # 0, "C05", "memory outside the described elements written")
         \cup If(e.stray # 0, "C14", "memory outside the described elements written")
         \cup If(m.mup, "C05", "chemical potential of the previous point was never set")
         \cup If(e.orth < cfg.dorth, "C06", "wave functions not S-orthonormal")
         \cup If(n > 1 /\ e.ne < cfg.dne, "C07", "electron number not conserved")
         \cup If(n > 1 /\ ~e.fb, "C07", "occupation outside its bounds")
         \cup If(m.ph = "ls" /\ e.col < cfg.dcol, "C21", "trial point off the search path")
         \cup If(m.ph = "ls" /\ ~e.fin, "C21", "step not finite")
         \cup If(m.first /\ e.kind = <<>>, "C22", "direction is neither steepest descent nor conjugate")
         \cup If(m.first /\ e.gam < D_GAM, "C22", "weight of the previous direction is not the Fletcher-Reeves ratio")
         \cup If(m.first /\ e.kind = <<>>, "C04", "direction is neither steepest descent nor conjugate")
         \cup If(e.offd < cfg.doff, "C23", "orbitals not in the eigenbasis of the pseudo-Hamiltonian of this step")
         \cup If(m.first /\ e.fds < D_SLOPE, "C09", "slope is not the directional derivative of the free energy")
         \cup If(m.first /\ e.slx < D_DIR, "C09", "slope is not the product of gradient and direction")
  IN Flag([m EXCEPT !.n = n, !.first = FALSE, !.frs = frs, !.sf = FALSE, !.mup = (n > 1),
                    !.rej = (m.ph = "ls" /\ e.cmp = "gt" /\ ~e.zero),
                    !.ls = IF m.ph = "ls" /\ ls1 = {} THEN Lost(frs) ELSE ls1, !.lastk = "eval"], b)

OnSetFn(cfg, m, e) ==
  Flag([m EXCEPT !.sf = TRUE, !.lastk = "sf"],
       If(~e.ok, "C05", "occupations handed over incomplete or for foreign keys")
       \cup If(~e.ok, "C15", "occupations handed over incomplete or for foreign keys")
       \cup If(m.mup, "C05", "chemical potential of the previous point was never set"))

OnMu(cfg, m, e) ==
  Flag([m EXCEPT !.mup = FALSE, !.lastk = "mu"],
       If(e.fd < cfg.docc, "C08", "occupations do not follow the smearing function")
       \cup If(e.fd < cfg.docc, "C23", "occupations do not follow the pseudo-Hamiltonian of the step")
       \cup If(e.fd < cfg.docc, "C05", "occupations do not belong to the wave functions or chemical potential of this point")
       \cup If(~e.nst, "C07", "electron number off although the count is not stationary"))

OnRec(cfg, m, e) ==
  LET acc  == IF m.ph = "init" THEN {} ELSE Accepted(m)
      fresh == m.ph = "ls"
      frs == IF m.ph = "init" THEN {FALSE} ELSE IF acc = {} THEN {FALSE, TRUE} ELSE { x.fr : x \in acc }
      b ==    If(fresh /\ acc = {} /\ ~m.first, "C21", "iteration continued although the line search had not ended")
         \cup If(fresh /\ acc = {} /\ ~m.first /\ GaveUp(m) # {}, "C04", "iteration continued after the second failed line search")
         \cup If(fresh /\ m.first, "C13", "two records without a line search in between")
         \cup If(m.ph = "init" /\ m.n # 2, "C21", "first iteration without exactly one evaluation of the initial point")
         \cup If(m.sl \in {"tiny"}, "C03", "iteration after convergence")
         \cup If(m.nrec + 1 > cfg.maxit, "C03", "more iterations than requested")
         \cup If(e.bad, "C13", "malformed record")
         \cup If(e.step # m.nrec, "C13", "records not numbered consecutively from 0")
         \cup If(e.bands # (e.step % 10 = 0), "C13", "band data not on every tenth record")
         \cup If(~e.keysOk, "C13", "band data do not cover all k-points")
         \cup If(e.he < D_ENG \/ e.hm < D_ENG \/ e.cp < D_ENG, "C13", "record does not describe the accepted point (energy, chemical potential or components)")
         \cup If(e.hf < D_ENG, "C13", "recorded occupations are not those of the accepted point")
         \cup If(e.fs < D_ENG, "C08", "F is not E + entropy term")
         \cup If(e.ss < D_ENG, "C08", "entropy term does not follow the smearing")
         \cup If(e.fd < D_OCC, "C08", "recorded occupations, pseudo-eigenvalues and chemical potential do not match")
         \cup If(e.fs < D_ENG \/ e.ss < D_ENG, "C13", "record does not describe the accepted point (free energy or entropy)")
         \cup If(e.fd < D_OCC, "C13", "recorded occupations do not match the recorded pseudo-eigenvalues")
         \cup If(e.cmp = "gt", "C01", "free energy increased between accepted points")
         \cup If(m.mup, "C05", "point logged before its chemical potential was set")
         \cup If(e.sl = "nan", "C09", "slope is not a number")
         \cup If(e.ups /\ cfg.pospre, "C09", "steepest descent points uphill")
         \cup If(e.ups /\ cfg.pospre /\ m.nrec > 0 /\ (m.nrec - 1) % cfg.restart # 0 /\ FALSE \in frs, "C04",
                 "uphill conjugate direction not replaced")
  IN Flag([m EXCEPT !.nrec = m.nrec + 1, !.sl = e.sl, !.ph = "ls", !.ls = {}, !.first = TRUE,
                    !.frs = frs, !.lastk = "rec"], b)

(* legal reasons to return *)
OnRet(cfg, m, e) ==
  LET conv   == m.ph = "ls" /\ m.first /\ m.sl = "tiny"
      uphill == m.ph = "ls" /\ m.first /\ m.sl = "pos"
      budget == \/ m.ph = "init" /\ m.n = 2 /\ cfg.maxit <= 0
                \/ m.ph = "ls" /\ ~m.first /\ m.nrec = cfg.maxit /\ Accepted(m) # {}
      giveup == m.ph = "ls" /\ ~m.first /\ GaveUp(m) # {}
      exact  == e.conv \/ uphill \/ (giveup /\ ~budget)
      b ==    If(e.conv /\ ~conv, "C03", "convergence reported without having been reached")
         \cup If(~e.conv /\ conv, "C03", "convergence reached but not reported")
         \cup If(~e.convsane, "C03", "converged flag not a boolean")
         \cup If(~(conv \/ uphill \/ budget \/ giveup), "C04", "run ended without a legal reason")
         \cup If(~(conv \/ uphill \/ budget \/ giveup), "C03", "run ended without a legal reason")
         \cup If(m.ph = "ls" /\ ~m.first /\ ~budget /\ ~giveup, "C02", "run ended away from an accepted point")
         \cup If(m.ph = "ls" /\ ~m.first /\ ~budget /\ ~giveup, "C21", "line search broken off")
         \cup If(~e.cSame \/ e.fDiff < 15, "C02", "host state is not the one last evaluated")
         \cup If(m.rej, "C02", "host left at a rejected trial")
         \cup If((exact \/ (budget /\ (\A x \in Accepted(m) : x.s = "A" /\ x.k = 1) /\ Accepted(m) # {})) /\ e.base < D_BASE, "C02", "host not left at the accepted point")
         \cup If(exact /\ e.Fr < D_ENG, "C02", "returned F is not that of the last record")
         \cup If(exact /\ ~e.iterOk, "C02", "returned iteration number is not that of the last record")
         \cup If(exact /\ e.tolr < 12, "C02", "returned residual is not that of the last record")
         \cup If(budget /\ ~giveup /\ ~e.iterB, "C02", "returned iteration number is not the iteration budget")
         \cup If(budget /\ e.tolb < 5, "C02", "returned residual is not that of the point left in the host")
         \cup If(e.Fh < D_ENG, "C02", "returned F is not host energy plus returned entropy term")
         \cup If(e.Sh < D_ENG, "C02", "returned entropy is not that of the state left in the host")
         \cup If(e.Sh < D_ENG \/ e.Fh < D_ENG, "C08", "returned F or entropy does not belong to the state in the host")
         \cup If(e.muh < D_ENG, "C02", "chemical potential in the host is not that of the point")
         \cup If(e.cmp = "gt", "C01", "returned free energy above the last accepted one")
         \cup If(m.mup, "C05", "returned before the chemical potential was set")
         \cup If(~e.intact, "C05", "input buffer of the host modified")
         \cup If(~e.intact \/ e.stray # 0, "C14", "memory outside the described elements written")
         \cup If(e.stale, "C13", "records of an earlier run were not removed")
         \cup If(e.opBad # 0, "C15", "operator called with a wrong key or shape")
  IN Flag([m EXCEPT !.ph = "end", !.lastk = "ret"], b)

OnExc(cfg, m, e) ==
  Flag([m EXCEPT !.ph = "end", !.lastk = "exc"],
       If(~e.expected, "ANY", "unexpected exception")
       \cup If(e.expected /\ m.n > cfg.excEvals, "C16", "invalid request rejected only after evaluations")
       \cup If(e.expected /\ (m.nrec > 0 \/ m.sf), "C16", "invalid request rejected only after work was done")
       \cup If(e.expected /\ ~e.untouched, "C16", "host modified although the request was rejected"))

OnEnd(cfg, m, e) ==
  Flag([m EXCEPT !.lastk = "end"],
       If(~e.filesOk, "C13", "unexpected or missing log files")
       \cup If(m.ph # "end" /\ ~e.excused, "ANY", "call did not end"))

OnBad(cfg, m, e) == Flag([m EXCEPT !.ph = "end"], {<<"ANY", e.what>>})

Observe(cfg, m, e) ==
  CASE e.k = "eval" -> OnEval(cfg, m, e)
    [] e.k = "sf"   -> OnSetFn(cfg, m, e)
    [] e.k = "mu"   -> OnMu(cfg, m, e)
    [] e.k = "rec"  -> OnRec(cfg, m, e)
    [] e.k = "ret"  -> OnRet(cfg, m, e)
    [] e.k = "exc"  -> OnExc(cfg, m, e)
    \* no representable chemical potential conserves the electron number: the call may fail (C07)
    [] e.k = "gaveup" -> [m EXCEPT !.ph = "end", !.lastk = "exc"]
    [] e.k = "end"  -> OnEnd(cfg, m, e)
    [] e.k = "bad"  -> OnBad(cfg, m, e)
    [] OTHER -> m
=============================================================================
