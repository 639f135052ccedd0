------------------------------ MODULE Symmetry -------------------------------
(* The same physical problem can be handed to the minimiser in many ways.    *)
(* A problem is a sequence of keys (weight, Hermitian matrix H over Gaussian *)
(* integers, orbitals X given by columns), an occupancy per band and an      *)
(* electron number.  Its observables: band energies Re x^H H x, the lowest   *)
(* level mu at which the electrons find room, the energy, and the electrons  *)
(* of every original key.  A presentation of it is made by up to MaxLen      *)
(* transformations:                                                          *)
(*   shift    zero of the energy            scale   unit of the energy       *)
(*   phase    phases of the basis functions conj    complex conjugation      *)
(*   gl       change of basis               pad     more basis functions     *)
(*   cols     order of the bands            clone   a k-point as two halves  *)
(*   spin     two spin channels of half occupancy   order   order of keys    *)
(* Checked: the observables are those of the original problem up to the      *)
(* accumulated unit lam and zero cc (e' = lam e + cc).  The sequences are    *)
(* dumped and carried out on the hosts the real code runs on, where the      *)
(* whole course of the run has to be the same.                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxLen, Dump, BUG

Z == <<0, 0>>
One == <<1, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Cj(a) == <<a[1], -a[2]>>
RECURSIVE SumC(_, _)
SumC(f, n) == IF n = 0 THEN Z ELSE Add(f[n], SumC(f, n - 1))
MM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
              SumC([k \in 1..Len(B) |-> Mul(A[i][k], B[k][j])], Len(B))]]
Herm(A) == [i \in 1..Len(A[1]) |-> [j \in 1..Len(A) |-> Cj(A[j][i])]]
CjM(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Cj(A[i][j])]]

NB == 2
Levels(k) == LET M == MM(Herm(k.X), MM(k.H, k.X)) IN [j \in 1..NB |-> M[j][j][1]]
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)
Filled(k, mu) == Cardinality({ j \in 1..NB : Levels(k)[j] <= mu })
\* levels are recomputed from the matrices, so that a wrong transformation shows
Count(p, mu) == SumN([i \in 1..Len(p.keys) |-> p.keys[i].w * p.occ * Filled(p.keys[i], mu)], Len(p.keys))
AllLevels(p) == UNION { { Levels(p.keys[i])[j] : j \in 1..NB } : i \in 1..Len(p.keys) }
Mu(p) == LET ok == { m \in AllLevels(p) : Count(p, m) >= p.ne * p.W } IN
         CHOOSE m \in ok : \A q \in ok : m <= q
Energy(p) == LET mu == Mu(p) IN
  SumN([i \in 1..Len(p.keys) |-> p.keys[i].w * p.occ *
         SumN([j \in 1..NB |-> IF Levels(p.keys[i])[j] <= mu THEN Levels(p.keys[i])[j] ELSE 0], NB)], Len(p.keys))
Charge(p) == Count(p, Mu(p))
\* electrons of an original key, over all its copies
Of(p, o) == SumN([i \in 1..Len(p.keys) |-> IF p.keys[i].orig = o THEN p.keys[i].w * p.occ * Filled(p.keys[i], Mu(p)) ELSE 0], Len(p.keys))

\* ------------------------------------------------------------------ transformations
MapK(p, F(_)) == [p EXCEPT !.keys = [i \in 1..Len(p.keys) |-> F(p.keys[i])]]
ScaleM(A, l) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> <<l * A[i][j][1], l * A[i][j][2]>>]]
\* shift by c times the metric, which is the one in which the orbitals are normalised: identity at the start
Norm(k) == MM(Herm(k.X), MM(k.S, k.X))
AddM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Add(A[i][j], B[i][j])]]
Shift(p, c) == [MapK(p, LAMBDA k : [k EXCEPT !.H = AddM(@, ScaleM(k.S, c))]) EXCEPT !.cc = @ + c]
Scale(p, l) == [MapK(p, LAMBDA k : [k EXCEPT !.H = ScaleM(@, l)]) EXCEPT !.lam = @ * l, !.cc = IF BUG = "zero" THEN @ ELSE @ * l]
Diag(n, f) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN f[i] ELSE Z]]
I1 == <<0, 1>>
Unit(n) == Diag(n, [i \in 1..n |-> IF i = 1 THEN I1 ELSE One])
Phase(p) == MapK(p, LAMBDA k : LET D == Unit(Len(k.H)) IN
  [k EXCEPT !.H = MM(D, MM(@, Herm(D))), !.S = MM(D, MM(@, Herm(D))), !.X = IF BUG = "phase" THEN @ ELSE MM(D, @)])
Conj(p) == MapK(p, LAMBDA k : [k EXCEPT !.H = CjM(@), !.S = CjM(@), !.X = IF BUG = "conj" THEN @ ELSE CjM(@)])
Sh(n, s) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE IF i = 1 /\ j = 2 THEN <<s, 0>> ELSE Z]]
Gl(p) == MapK(p, LAMBDA k : LET A == Sh(Len(k.H), 1) B == Sh(Len(k.H), -1) IN
  [k EXCEPT !.H = MM(Herm(A), MM(@, A)), !.S = IF BUG = "metric" THEN @ ELSE MM(Herm(A), MM(@, A)), !.X = MM(B, @)])
PadM(A, d) == [i \in 1..(Len(A) + 1) |-> [j \in 1..(Len(A) + 1) |->
  IF i <= Len(A) /\ j <= Len(A) THEN A[i][j] ELSE IF i = j THEN <<d, 0>> ELSE Z]]
Pad(p) == MapK(p, LAMBDA k : [k EXCEPT !.H = PadM(@, 50), !.S = PadM(@, 1), !.X = Append(@, [j \in 1..NB |-> Z])])
Cols(p) == MapK(p, LAMBDA k : [k EXCEPT !.X = [i \in 1..Len(@) |-> [j \in 1..NB |-> @[i][NB + 1 - j]]]])
\* the last key is given as two of half its weight (all weights are doubled, so as to stay integers)
Clone(p) == LET d == MapK(p, LAMBDA k : [k EXCEPT !.w = 2 * @]) n == Len(p.keys) IN
  [d EXCEPT !.W = 2 * @, !.keys = [i \in 1..(n + 1) |-> IF i < n THEN @[i] ELSE
     [@[n] EXCEPT !.w = IF BUG = "weight" THEN @ ELSE @ \div 2]]]
Spin(p) == LET n == Len(p.keys) IN
  [p EXCEPT !.occ = IF BUG = "occ" THEN @ ELSE 1, !.keys = [i \in 1..2 * n |-> @[1 + (i - 1) \div 2]], !.spin = 2]
Order(p) == [p EXCEPT !.keys = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]

VARIABLES orig, p, seq
vars == <<orig, p, seq>>

Hs == { <<<<<<a, 0>>, z>>, <<Cj(z), <<2, 0>>>>>> : a \in 0..1, z \in {Z, <<1, 1>>} }
Id2 == <<<<One, Z>>, <<Z, One>>>>
\* orbitals with the metric in which they are orthonormal
XS == { [X |-> Id2, S |-> Id2], [X |-> <<<<One, I1>>, <<Z, One>>>>, S |-> <<<<One, Cj(I1)>>, <<I1, <<2, 0>>>>>>] }
H2 == <<<<<<1, 0>>, I1>>, <<Cj(I1), <<3, 0>>>>>>
Init ==
  /\ \E h \in Hs, x \in XS, wn \in {<<1, 1>>, <<2, 2>>, <<1, 3>>} : LET w == wn[1] n == wn[2] IN
       orig = [keys |-> <<[w |-> w, H |-> h, S |-> x.S, X |-> x.X, orig |-> 1],
                          [w |-> 1, H |-> H2, S |-> Id2, X |-> Id2, orig |-> 2]>>,
               occ |-> 2, ne |-> n, W |-> w + 1, lam |-> 1, cc |-> 0, spin |-> 1]
  /\ p = orig /\ seq = <<>>

Do(name, q) == seq' = Append(seq, name) /\ p' = q
Next ==
  /\ Len(seq) < MaxLen /\ orig' = orig
  /\ \/ \E c \in {-2, 3} : Do(IF c = 3 THEN "up" ELSE "down", Shift(p, c))
     \/ Do("scale", Scale(p, 2))
     \/ Do("phase", Phase(p)) \/ Do("conj", Conj(p)) \/ Do("gl", Gl(p)) \/ Do("pad", Pad(p)) \/ Do("cols", Cols(p))
     \/ Do("clone", Clone(p)) \/ Do("order", Order(p))
     \/ (p.spin = 1 /\ Do("spin", Spin(p)))
Spec == Init /\ [][Next]_vars

\* the orbitals stay orthonormal in the metric handed over
Normalised == \A i \in 1..Len(p.keys) : \A a, b \in 1..NB : Norm(p.keys[i])[a][b] = IF a = b THEN One ELSE Z
SameMu == Mu(p) = p.lam * Mu(orig) + p.cc
SameCharge == Charge(p) * orig.W = Charge(orig) * p.W
SameEnergy == Energy(p) * orig.W = p.W * (p.lam * Energy(orig)) + p.cc * Charge(p) * orig.W
SameFill == \A o \in 1..2 : Of(p, o) * orig.W = Of(orig, o) * p.W
DumpInv == (Dump /\ orig.ne = 1 /\ orig.keys[1].w = 1 /\ orig.keys[1].X = Id2 /\ orig.keys[1].H[1] = <<Z, Z>>) =>
  PrintT("CONFIG " \o ToJson([seq |-> seq]))
=============================================================================
