------------------------------ MODULE NlcgDesign ------------------------------
(***************************************************************************)
(* Design of nlcg_us: driver loop, descent directions and line search as   *)
(* an explicit state machine.  The host (energies, slopes) is an           *)
(* adversarial environment: every outcome of an evaluation that the        *)
(* algorithm can distinguish is a nondeterministic choice.                 *)
(*                                                                         *)
(* Every step emits the event a host / log reader observes; the acceptor   *)
(* Monitor runs in product (variable m).  hist records the environment's   *)
(* choices: a complete behaviour is replayed against the real code by the  *)
(* scripted host (harness/script.hpp).                                     *)
(*                                                                         *)
(* BUG selects a spec-level mutant; "none" is the design.                  *)
(***************************************************************************)
EXTENDS Monitor, Json, TLC

CONSTANTS MaxIts,    \* iteration budgets to consider
          Restarts,  \* restart periods to consider
          NBT,       \* number of backtracking steps above 1e-8
          KMAX,      \* bound on trial enlargements (energy bounded below)
          Nan,       \* TRUE: the host may also answer with an invalid (NaN) energy
          NegUntil,  \* before this iteration every slope is a proper descent slope (0: no restriction)
          Dump,      \* TRUE: print every complete behaviour
          BUG

VARIABLES pc, maxit, restart, it, F, fr, sl, dir, k, j, m, hist
vars == <<pc, maxit, restart, it, F, fr, sl, dir, k, j, m, hist>>

Cfg == [maxit |-> maxit, restart |-> restart, nbt |-> NBT, pospre |-> FALSE, excEvals |-> 0,
        dorth |-> 8, dne |-> 9, dcol |-> 4, doff |-> 6, docc |-> 6]

(* event constructors: all measured errors are perfect in the design *)
EvEval(tr, bt, zero, mn, cv, cmp, kind, up) ==
  [k |-> "eval", tr |-> tr, bt |-> bt, zero |-> zero, mn |-> mn, cv |-> cv, cmp |-> cmp, kind |-> kind, up |-> up,
   orth |-> 15, ne |-> 15, fb |-> TRUE, col |-> 15, fin |-> TRUE, intact |-> TRUE, stray |-> 0, gam |-> 15,
   offd |-> 15, fds |-> 15, slx |-> 15]
EvSf == [k |-> "sf", ok |-> TRUE]
EvMu == [k |-> "mu", fd |-> 15, nst |-> TRUE]
EvRec(step, s, cmp) ==
  [k |-> "rec", step |-> step, sl |-> s, ups |-> FALSE, cmp |-> cmp, bands |-> (step % 10 = 0), keysOk |-> TRUE, bad |-> FALSE,
   he |-> 15, hm |-> 15, cp |-> 15, hf |-> 15, fs |-> 15, ss |-> 15, fd |-> 15]
EvRet(conv, base, cmp, iterOk, iterB) ==
  [k |-> "ret", stale |-> FALSE, conv |-> conv, convsane |-> TRUE, cSame |-> TRUE, fDiff |-> 17, base |-> base, Fr |-> 15,
   iterOk |-> iterOk, iterB |-> iterB, tolr |-> 15, tolb |-> 15, Fh |-> 15, Sh |-> 15, muh |-> 15, cmp |-> cmp,
   intact |-> TRUE, stray |-> 0, opBad |-> 0]

RECURSIVE Feed(_, _)
Feed(mm, es) == IF es = <<>> THEN mm ELSE Feed(Observe(Cfg, mm, Head(es)), Tail(es))
Emit(es) == m' = Feed(m, es)

(* one evaluation: occupations, evaluate, chemical potential *)
Eval(e) == (IF BUG = "noSetFn" THEN <<>> ELSE <<EvSf>>) \o <<e>> \o (IF BUG = "noMu" THEN <<>> ELSE <<EvMu>>)

Init ==
  /\ maxit \in MaxIts /\ restart \in Restarts
  /\ pc = "start" /\ it = 0 /\ F = [cur |-> 0, acc |-> 0, rec |-> 0] /\ fr = FALSE
  /\ sl = "none" /\ dir = "none" /\ k = 0 /\ j = 0
  /\ m = MInit /\ hist = <<>>

H(x) == hist' = Append(hist, x)
NoHist == hist' = hist
SlopesAt(i) == IF i < NegUntil THEN {"neg"} ELSE {"neg", "tiny", "pos"}
Cmp(x, y) == IF x < y THEN "lt" ELSE IF x = y THEN "eq" ELSE "gt"

(* initial evaluation of the host's own state, then of its occupations; first direction is SD *)
Start ==
  /\ pc = "start"
  /\ \E s \in SlopesAt(0) :
       /\ sl' = s /\ dir' = IF BUG = "startCG" THEN "CG" ELSE "SD"
       /\ H([d |-> "SD", s |-> s])
       /\ LET e0 == EvEval(<<>>, <<>>, TRUE, FALSE, <<"flat">>, "eq", <<>>, "any") IN
            Emit(<<e0>> \o Eval(e0))
  /\ pc' = "iter"
  /\ UNCHANGED <<maxit, restart, it, F, fr, k, j>>

Conv == sl = "tiny" \/ (BUG = "convSigned" /\ sl = "pos")

(* head of the loop *)
Iter ==
  /\ pc = "iter"
  /\ LET lim == IF BUG = "budget" THEN maxit + 1 ELSE maxit IN
     IF it >= lim
     THEN /\ pc' = "done"
          /\ Emit(<<EvRet(BUG = "budgetConv", 15, Cmp(F.cur, F.acc), FALSE, TRUE)>>)
          /\ UNCHANGED F
     ELSE LET r == EvRec(IF BUG = "stepNum" THEN it + 1 ELSE it, sl,
                         IF it = 0 THEN "eq" ELSE IF F.cur > F.rec THEN "gt" ELSE "lt") IN
          IF Conv
          THEN /\ pc' = "done" /\ UNCHANGED F
               /\ Emit(<<r, EvRet(BUG # "convLost", 15, "eq", TRUE, TRUE)>>)
          ELSE IF sl = "pos" /\ BUG # "ascend"
          THEN /\ pc' = "done" /\ UNCHANGED F
               /\ Emit(<<r, EvRet(FALSE, 15, "eq", TRUE, TRUE)>>)
          ELSE /\ pc' = "trial" /\ F' = [F EXCEPT !.rec = F.cur, !.acc = F.cur]
               /\ Emit(IF BUG = "noRec" /\ it > 0 THEN <<>> ELSE <<r>>)
  /\ NoHist
  /\ k' = 0 /\ j' = 0
  /\ UNCHANGED <<maxit, restart, it, fr, sl, dir>>

Up   == IF dir \in {"SDup", "CGup"} THEN "yes" ELSE "no"
KindSeq == CASE dir = "SDup" -> <<"SD">> [] dir = "CGup" -> <<"CG">> [] OTHER -> <<dir>>

(* quadratic line search: trial point 0.2 * 5^k *)
Trial ==
  /\ pc = "trial"
  /\ \E o \in {"conc", "conv", "flat"} \cup (IF Nan THEN {"nan"} ELSE {}) :
       /\ (o = "conc" => k < KMAX)
       /\ H([o |-> o])
       /\ LET tt == IF BUG = "trialFactor" /\ k > 0 THEN <<>> ELSE <<k>> IN
          Emit(Eval(EvEval(tt, IF k = 0 THEN <<0>> ELSE <<>>, FALSE, FALSE, <<IF o = "nan" THEN "flat" ELSE o>>,
                           "gt", IF k = 0 THEN KindSeq ELSE <<>>, IF k = 0 THEN Up ELSE "any")))
       /\ CASE o = "conc" -> pc' = "trial" /\ k' = k + 1
            [] o = "conv" -> pc' = "min" /\ k' = k
            [] OTHER      -> pc' = (IF NBT = 0 THEN "zero" ELSE "bt") /\ k' = k
  /\ UNCHANGED <<maxit, restart, it, F, fr, sl, dir, j>>

(* F of an accepted point *)
Set(o) == F' = [F EXCEPT !.cur = CASE o = "lt" -> F.acc - 1 [] o = "eq" -> F.acc [] o = "gt" -> F.acc + 1]

Min ==
  /\ pc = "min"
  /\ \E o \in {"lt", "eq", "gt"} \cup (IF Nan THEN {"nan"} ELSE {}) :
       LET oo == IF o = "nan" THEN "gt" ELSE o IN
       /\ H([o |-> o])
       /\ Emit(Eval(EvEval(<<>>, <<>>, FALSE, TRUE, <<"conv">>, oo, <<>>, "any")))
       /\ IF oo # "gt" \/ BUG = "acceptMin" \/ (BUG = "acceptNan" /\ o = "nan")
          THEN /\ Set(oo) /\ fr' = (IF BUG = "frStuck" THEN fr ELSE FALSE) /\ pc' = "dir"
          ELSE /\ UNCHANGED <<F, fr>> /\ pc' = IF NBT = 0 THEN "zero" ELSE "bt"
  /\ UNCHANGED <<maxit, restart, it, sl, dir, k, j>>

(* backtracking: 0.2 * tau^j *)
Bt ==
  /\ pc = "bt"
  /\ \E o \in {"lt", "eq", "gt"} \cup (IF Nan THEN {"nan"} ELSE {}) :
       LET oo == IF o = "nan" THEN "gt" ELSE o IN
       /\ H([o |-> o])
       /\ Emit(Eval(EvEval(IF j = 0 THEN <<0>> ELSE <<>>, <<IF BUG = "btSkip" THEN j + 1 ELSE j>>, FALSE, FALSE,
                           <<"flat">>, oo, <<>>, "any")))
       /\ IF oo = "lt" \/ (BUG = "btLe" /\ oo = "eq") \/ (BUG = "btAny")
          THEN /\ Set(oo) /\ fr' = FALSE /\ pc' = "dir" /\ j' = j
          ELSE /\ UNCHANGED <<F, fr>>
               /\ IF j + 1 < NBT THEN j' = j + 1 /\ pc' = "bt" ELSE j' = j /\ pc' = "zero"
  /\ UNCHANGED <<maxit, restart, it, sl, dir, k>>

(* line search failed: back to the unchanged point; give up if this was a fresh SD direction already *)
Zero ==
  /\ pc = "zero"
  /\ LET es == IF BUG = "noReset" THEN <<>> ELSE Eval(EvEval(<<>>, <<>>, TRUE, FALSE, <<"flat">>, "eq", <<>>, "any")) IN
     IF fr
     THEN /\ pc' = "done" /\ UNCHANGED <<F, fr>>
          /\ Emit(IF BUG = "noFinalReset" THEN <<EvRet(FALSE, 3, "eq", TRUE, FALSE)>>
                  ELSE es \o <<EvRet(BUG = "giveupConv", IF BUG = "noReset" THEN 3 ELSE 15, "eq", TRUE, FALSE)>>)
     ELSE /\ pc' = "dir" /\ F' = [F EXCEPT !.cur = F.acc] /\ Emit(es)
          /\ fr' = (BUG # "frLost")
  /\ NoHist
  /\ UNCHANGED <<maxit, restart, it, sl, dir, k, j>>

(* next direction *)
Dir ==
  /\ pc = "dir" /\ pc' = "iter" /\ it' = it + 1 /\ UNCHANGED <<maxit, restart, F, k, j>>
  /\ LET due == IF BUG = "restartOff" THEN (it + 1) % restart = 0 ELSE it % restart = 0 IN
     IF due \/ fr
     THEN \E s \in SlopesAt(it + 1) :
            /\ sl' = s /\ dir' = "SD" /\ fr' = fr /\ H([d |-> "SD", s |-> s]) /\ UNCHANGED m
     ELSE \E s \in SlopesAt(it + 1) \cup {"pos"} :
            IF s # "pos"
            THEN /\ sl' = s /\ dir' = "CG" /\ fr' = fr /\ H([d |-> "CG", s |-> s]) /\ UNCHANGED m
            ELSE IF BUG = "keepUphill" THEN /\ sl' = "neg" /\ dir' = "CGup" /\ fr' = fr /\ UNCHANGED m
                                            /\ H([d |-> "CG", s |-> "neg"])
            ELSE \E s2 \in SlopesAt(it + 1) :
                   /\ sl' = s2 /\ dir' = "SDup" /\ fr' = (BUG # "upNoFr") /\ UNCHANGED m
                   /\ hist' = hist \o <<[d |-> "CG", s |-> "pos"], [d |-> "SDup", s |-> s2]>>

Next == Start \/ Iter \/ Trial \/ Min \/ Bt \/ Zero \/ Dir
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Quiet == m.bad = {}                                    \* the acceptor allows every behaviour of the design
Caught == pc = "done" => TRUE
Monotone == F.acc <= 0 /\ (pc = "dir" => F.cur <= F.acc)
Budget == it <= maxit
Termination == <>(pc = "done")
TypeOK == pc \in {"start", "iter", "trial", "min", "bt", "zero", "dir", "done"} /\ fr \in BOOLEAN

(* states are compared without the history unless behaviours are dumped *)
View == IF Dump THEN vars ELSE <<pc, maxit, restart, it, F, fr, sl, dir, k, j, m>>

Behaviour == [maxit |-> maxit, restart |-> restart, nrec |-> m.nrec, n |-> m.n,
              fin |-> IF sl = "tiny" /\ it < maxit THEN "conv" ELSE IF sl = "pos" /\ it < maxit THEN "uphill"
                      ELSE IF it >= maxit THEN "budget" ELSE "giveup",
              hist |-> hist]
DumpInv == (Dump /\ pc = "done") => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
