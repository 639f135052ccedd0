------------------------------- MODULE Fermi --------------------------------
(* Search for the chemical potential.  k-points with weights w own levels on *)
(* an integer lattice; a level d sites below mu holds Shape[d] quarters of   *)
(* its maximum.  The search keeps a bracket and probes inside it, in any     *)
(* order (bisection, step doubling and Newton are instances).  Checked: what *)
(* it returns balances the electrons; it gives up only if nothing does; it   *)
(* ends.  For shapes that are not monotone (overshoot) only the first and    *)
(* last hold.  Spectra, weights and electron counts are dumped and given to  *)
(* the real code.  BUG: "accept" returns the last probe in any case,         *)
(* "weights" ignores the weights, "local" counts one k-point only, "sign"    *)
(* searches the wrong half.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS NK, NB, L, Mono, Dump, BUG
K == 1..NK
B == 1..NB
W == {1, 2, 3}
Lo == -3
Hi == L + 3
Shape(d) == IF Mono THEN (IF d <= -2 THEN 0 ELSE IF d >= 2 THEN 4 ELSE d + 2)
                    ELSE (IF d <= -3 THEN 0 ELSE IF d = -2 THEN -1 ELSE IF d = 2 THEN 5 ELSE IF d >= 3 THEN 4 ELSE d + 2)
VARIABLES e, w, ne, lo, hi, mu, st
vars == <<e, w, ne, lo, hi, mu, st>>
Spectra == { s \in [B -> 0..L] : \A b \in B : b = NB \/ s[b] <= s[b + 1] }

RECURSIVE SumB(_, _, _)
SumB(s, m, b) == IF b = 0 THEN 0 ELSE Shape(m - s[b]) + SumB(s, m, b - 1)
RECURSIVE Sum(_, _)
Sum(m, k) == IF k = 0 THEN 0 ELSE w[k] * SumB(e[k], m, NB) + Sum(m, k - 1)
RECURSIVE SumOne(_, _)
SumOne(m, k) == IF k = 0 THEN 0 ELSE SumB(e[k], m, NB) + SumOne(m, k - 1)
RECURSIVE WSum(_)
WSum(k) == IF k = 0 THEN 0 ELSE w[k] + WSum(k - 1)
N(m) == Sum(m, NK)                          \* quarters, weights not normalised
Target == ne * WSum(NK)
(* the count the search works with *)
Count(m) == CASE BUG = "weights" -> SumOne(m, NK) [] BUG = "local" -> w[1] * SumB(e[1], m, NB) [] OTHER -> N(m)
Goal == CASE BUG = "weights" -> ne * NK [] BUG = "local" -> ne * w[1] [] OTHER -> Target

Init == /\ e \in [K -> Spectra] /\ w \in [K -> W]
        /\ ne \in 0..(4 * NB)                \* in quarters of a level
        /\ lo = Lo - 1 /\ hi = Hi + 1 /\ mu = Lo - 1 /\ st = "search"
Probe == /\ st = "search" /\ lo + 1 < hi
         /\ \E m \in (lo + 1)..(hi - 1) :
              /\ mu' = m
              /\ IF Count(m) = Goal THEN st' = "found" /\ UNCHANGED <<lo, hi>>
                 ELSE /\ st' = st
                      /\ IF (Count(m) < Goal) = (BUG # "sign") THEN lo' = m /\ hi' = hi ELSE hi' = m /\ lo' = lo
         /\ UNCHANGED <<e, w, ne>>
GiveUp == /\ st = "search" /\ lo + 1 >= hi
          /\ st' = IF BUG = "accept" THEN "found" ELSE "none"
          /\ UNCHANGED <<e, w, ne, lo, hi, mu>>
Next == Probe \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Balanced == st = "found" => N(mu) = Target
OnlyIfNone == (Mono /\ st = "none") => \A m \in Lo..Hi : N(m) # Target
Ends == <>(st # "search")
DumpInv == (Dump /\ lo = Lo - 1 /\ hi = Hi + 1 /\ st = "search") =>
             PrintT("CONFIG " \o ToJson([e |-> e, w |-> w, ne |-> ne]))
=============================================================================
