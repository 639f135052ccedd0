------------------------------- MODULE Ground --------------------------------
(* Where a run has to end.  Problems: NK k-points with NL levels, of which a *)
(* state fills at most NB per k-point, weights, a repulsion u between the    *)
(* electrons of equal level number, and a convex entropy term s.  The model  *)
(* checks the certificate by which runs of the code are judged: from the     *)
(* mean field of any state (ref), its lowest NB levels filled for any        *)
(* chemical potential bound the energy of every state with that charge from  *)
(* below - also in the interacting problem - and a descent that cannot be    *)
(* continued has met the bound's minimum where moves are exact.              *)
(* BUG: half - the interaction is counted twice in the bound                 *)
(*      sign - entropy with the wrong sign    weight - weights forgotten     *)
(*      rank - not the lowest levels          stop - any state is final      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NK, NL, NB, Q, MaxLev, BUG

K == 1..NK
L == 1..NL
VARIABLES lev, w, u, st, ref, pc
vars == <<lev, w, u, st, ref, pc>>
Occ == [K -> [L -> 0..Q]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Rank(o) == \A k \in K : Cardinality({l \in L : o[k][l] > 0}) <= NB
RO == {o \in Occ : Rank(o)}
N(o) == Sum([k \in K |-> w[k] * Sum(o[k], L)], K)
s(q) == q * (q - Q)                                \* convex, zero for empty and full levels
rho(o) == [l \in L |-> Sum([k \in K |-> w[k] * o[k][l]], K)]
\* twice the energy
F(o) == Sum([k \in K |-> w[k] * Sum([l \in L |-> 2 * (o[k][l] * lev[k][l] + s(o[k][l]))], L)], K)
        + u * Sum([l \in L |-> rho(o)[l] * rho(o)[l]], L)

\* the bound from the mean field of r for every chemical potential
Mus == (0 - Q)..(MaxLev + Q + 2)
Fill(x, m) == LET v(q) == IF BUG = "sign" THEN q * (x - m) - s(q) ELSE q * (x - m) + s(q)
                  vs == {v(q) : q \in 0..Q}
              IN CHOOSE y \in vs : \A z \in vs : y <= z
Levels(hk) == LET lower(l, j) == hk[l] < hk[j] \/ (hk[l] = hk[j] /\ l < j)
                  pos(j) == Cardinality({l \in L : lower(l, j)})
              IN IF BUG = "rank" THEN {j \in L : pos(j) >= NL - NB} ELSE {j \in L : pos(j) < NB}
Bounds(r) ==
  LET d == rho(r)
      h == [k \in K |-> [l \in L |-> lev[k][l] + u * d[l]]]
      V == [k \in K |-> Levels(h[k])]
      c == IF BUG = "half" THEN 0 ELSE u * Sum([l \in L |-> d[l] * d[l]], L)
      n == N(r)
  IN [m \in Mus |-> Sum([k \in K |-> (IF BUG = "weight" THEN 1 ELSE w[k]) * 2 * Sum([l \in V[k] |-> Fill(h[k][l], m)], V[k])], K)
                    + 2 * m * n - c]

Init == /\ lev \in [K -> [L -> 0..MaxLev]] /\ w \in [K -> 1..2] /\ (\A k \in K : w[1] <= w[k]) /\ u \in 0..1
        /\ st \in RO
        /\ ref \in (LET n == N(st) IN {o \in RO : N(o) = n})
        /\ pc = "run"
\* a descent: any other state of that charge with a lower energy
Lower == LET n == N(st) f == F(st) IN {o \in RO : N(o) = n /\ F(o) < f}
Move == pc = "run" /\ \E o \in Lower : st' = o /\ UNCHANGED <<lev, w, u, ref, pc>>
Stop == pc = "run" /\ (Lower = {} \/ BUG = "stop") /\ pc' = "end" /\ UNCHANGED <<lev, w, u, st, ref>>
Next == Move \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* no state lies below the bound of another
Below == LET b == Bounds(ref) f == F(st) IN \A m \in Mus : b[m] <= f
\* the end is a minimum
Found == pc = "end" => F(st) <= F(ref)
Ends == <>(pc = "end")
=============================================================================
