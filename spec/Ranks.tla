-------------------------------- MODULE Ranks --------------------------------
(* NR processes own disjoint parts of NK k-points (possibly none) and run    *)
(* the same control flow, in rounds: local work, a gather of the local keys  *)
(* (chemical potential), a reduction (entropy), a reduction (slope), and a   *)
(* decision taken from the reduced value: stop, restart or continue; every   *)
(* round starts with a record whose band data are gathered by everybody.     *)
(* Processes interleave arbitrarily; a collective completes when all of them *)
(* have entered it.  Checked: collectives always match, all processes decide *)
(* alike, the master alone writes, everybody terminates.  The distributions  *)
(* are dumped and run on the real library under mpirun.                      *)
EXTENDS Integers, FiniteSets, Sequences, Json, TLC
CONSTANTS NR, NK, NRounds, Dump, BUG

R == 0..NR-1
K == 1..NK
Ops == <<"gatherRec", "gatherKeys", "sumEntropy", "sumSlope">>

VARIABLES dist, pc, round, dec, arrived, bad, wrote, outc
vars == <<dist, pc, round, dec, arrived, bad, wrote, outc>>

Own(r) == { k \in K : dist[k] = r }
\* local contribution to the slope; what counts is the sign of the sum
Local(r, o) == IF o = "restart" THEN (IF 1 \in Own(r) THEN 2 ELSE -Cardinality(Own(r) \cap {2}))
               ELSE -Cardinality(Own(r))
RECURSIVE Sum(_, _)
Sum(S, o) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Local(x, o) + Sum(S \ {x}, o)
Decide(v, o) == IF o = "stop" THEN "stop" ELSE IF v > 0 THEN "restart" ELSE "cont"

Init ==
  /\ dist \in [K -> R]
  /\ pc = [r \in R |-> IF BUG = "masterGathers" /\ r # 0 THEN 2 ELSE 1]
  /\ round = [r \in R |-> 1]
  /\ dec = [r \in R |-> "none"]
  /\ arrived = {} /\ bad = {} /\ wrote = {}
  /\ outc = "none"

\* rank r enters its next collective
Enter(r) ==
  /\ pc[r] \in 1..Len(Ops) /\ r \notin arrived
  /\ arrived' = arrived \cup {r}
  /\ bad' = IF \E q \in arrived : Ops[pc[q]] # Ops[pc[r]] THEN bad \cup {"mismatch"} ELSE bad
  /\ wrote' = IF pc[r] = 1 /\ r = 0 THEN wrote \cup {r} ELSE wrote
  /\ UNCHANGED <<dist, pc, round, dec, outc>>

\* all ranks of the communicator are inside: it completes
Complete ==
  /\ arrived = { r \in R : ~(BUG = "skipEmpty" /\ Own(r) = {}) } /\ arrived # {}
  /\ bad = {}
  /\ \E o \in {"stop", "restart", "cont"} :
       /\ IF \E r \in arrived : pc[r] = Len(Ops) THEN outc' = o ELSE o = "cont" /\ outc' = outc
       /\ pc' = [r \in R |-> IF r \notin arrived THEN pc[r]
                            ELSE IF pc[r] < Len(Ops) THEN pc[r] + 1 ELSE 5]
  /\ arrived' = {}
  /\ UNCHANGED <<dist, round, dec, bad, wrote>>

Decision(r) ==
  /\ pc[r] = 5
  /\ LET v == IF BUG = "localDecision" THEN Local(r, outc) ELSE Sum(R, outc)
         d == Decide(v, outc) IN
     /\ dec' = [dec EXCEPT ![r] = d]
     /\ IF d = "stop" \/ round[r] = NRounds THEN pc' = [pc EXCEPT ![r] = 9] /\ UNCHANGED round
        ELSE /\ round' = [round EXCEPT ![r] = @ + 1]
             \* a restart evaluates the slope once more (one more reduction)
             /\ pc' = [pc EXCEPT ![r] = IF d = "restart" THEN 4 ELSE IF BUG = "masterGathers" /\ r # 0 THEN 2 ELSE 1]
  /\ UNCHANGED <<dist, arrived, bad, wrote, outc>>

Next == Complete \/ \E r \in R : Enter(r) \/ Decision(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Matching == bad = {}
MasterOnly == wrote \subseteq {0}
SameEnd == (\A r \in R : pc[r] = 9) => \A r, q \in R : dec[r] = dec[q]
AllEnd == <>(\A r \in R : pc[r] = 9)
DumpInv == (Dump /\ arrived = {} /\ (\A r \in R : pc[r] = 1 /\ round[r] = 1)) =>
  PrintT("CONFIG " \o ToJson([dist |-> dist]))
=============================================================================
