------------------------------ MODULE TaleRules ------------------------------
(* The text log of a call, as a language.  Tokens:                           *)
(*   iter S mu KS   the accepted point an iteration starts from              *)
(*   trial          a line search begins                                     *)
(*   inc            the trial step was extended                              *)
(*   tmin           predicted minimum evaluated                              *)
(*   qfail fb       it was not accepted / backtracking begins                *)
(*   fd fd2 bt      backtracking step evaluated / accepted / shortened       *)
(*   lsEnd          the line search is over                                  *)
(*   restart sd cg  next direction                                           *)
(*   fS fF fKS success, nodescent, slopeerr   the end of the run             *)
EXTENDS Integers, Sequences

Next1(p) ==
  CASE p = "start" -> {"iter", "end"}
    [] p = "iter" -> {"S"} [] p = "S" -> {"mu"} [] p = "mu" -> {"KS"}
    [] p = "KS" -> {"trial", "fS", "slopeerr"}
    [] p = "trial" -> {"inc", "tmin", "fb"}
    [] p = "inc" -> {"inc", "tmin", "fb"}
    [] p = "tmin" -> {"qfail", "lsEnd"}
    [] p = "qfail" -> {"fb"}
    [] p = "fb" -> {"fd"}
    [] p = "fd" -> {"fd2", "bt"}
    [] p = "fd2" -> {"lsEnd"}
    [] p = "bt" -> {"fd", "lsEnd", "nodescent"}
    [] p = "lsEnd" -> {"sd", "cg", "restart"}
    [] p = "restart" -> {"cg"}
    [] p \in {"sd", "cg"} -> {"iter", "end"}
    [] p = "fS" -> {"fF"} [] p = "fF" -> {"fKS"} [] p = "fKS" -> {"success"}
    [] p \in {"success", "nodescent", "slopeerr"} -> {"end"}
    [] OTHER -> {}

\* evaluations of the host that token t, after p, gives account of
Cost(p, t) == CASE t = "inc" -> 1
                [] t = "tmin" -> 2
                [] t = "fb" /\ p # "qfail" -> 1
                [] t = "fd" -> 1
                [] t \in {"lsEnd", "nodescent"} /\ p = "bt" -> 1
                [] OTHER -> 0
\* kind of the direction that token t, after p, announces
Kind(p, t) == IF t = "sd" \/ (t = "cg" /\ p = "restart") THEN "SD" ELSE IF t = "cg" THEN "CG" ELSE ""
=============================================================================
