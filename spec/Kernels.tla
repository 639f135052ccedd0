------------------------------- MODULE Kernels -------------------------------
(* The matrix building blocks: which operations exist, for which shapes and  *)
(* layouts, and what they return (module Algebra).  Checked on all matrices  *)
(* with entries from a small set: the algebraic laws on which the minimiser  *)
(* relies.  The (operation, shape, layout, factors) space is enumerated and  *)
(* dumped for the real code; contents come from the harness.                 *)
EXTENDS Algebra, FiniteSets, Json, TLC
CONSTANTS Mode, MaxDim, Full, Dump, BUG
Products == {"inner", "outer", "transform"}
Elementwise == {"add", "_add", "scalecol", "scalemat"}
Layouts == {"dense", "pad"}
Factors == IF Full THEN {<<1, 0>>, <<0, 0>>, <<-1, 0>>, <<2, -1>>, <<0, 3>>} ELSE {<<1, 0>>, <<0, 0>>, <<2, -1>>, <<-3, 0>>}
Dims == 1..MaxDim
Small == {<<1, 0>>, <<0, 1>>, <<-1, 1>>}
MatsOf(m, n) == { [m |-> m, n |-> n, v |-> v] : v \in [1..m -> [1..n -> Small]] }

VARIABLES c
vars == <<c>>
InitLaws == \E A \in MatsOf(2, 1), B \in MatsOf(2, 1), D \in MatsOf(1, 2) :
              c = [A |-> A, B |-> B, D |-> D]
InitSpace == \E op \in Products \cup Elementwise, m \in Dims, k \in Dims, n \in Dims, la \in Layouts \cup {"row"}, lb \in Layouts, lc \in Layouts,
                al \in Factors, be \in Factors :
              /\ (op \in Elementwise => k = 1 /\ lb = "dense")
              /\ (op \in {"scalecol", "scalemat"} => al[2] = 0 /\ be[2] = 0)
              /\ c = [op |-> op, m |-> m, k |-> k, n |-> n, la |-> la, lb |-> lb, lc |-> lc, al |-> al, be |-> be]
Init == IF Mode = "laws" THEN InitLaws ELSE InitSpace
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

MulB(A, B) == IF BUG = "noConj" THEN Mul(Mx(A.n, A.m, LAMBDA i, j : El(A, j, i)), B) ELSE Inner(A, B)
Laws == Mode = "laws" =>
  /\ Herm(MulB(c.A, c.B)) = MulB(c.B, c.A)                                 \* inner products are hermitian
  /\ Mul(c.A, MulB(c.B, c.A)) = Mul(Outer(c.A, c.B), c.A)                  \* associativity
  /\ Herm(Mul(c.D, c.A)) = Mul(Herm(c.A), Herm(c.D))
  /\ MulB(c.A, c.A).v[1][1][1] >= 0 /\ MulB(c.A, c.A).v[1][1][2] = 0       \* positivity
  /\ TraceH(c.A, c.B) = Conj(TraceH(c.B, c.A))
  /\ TraceH(c.A, c.B) = SumTo(DiagOf(Inner(c.B, c.A)), c.A.n)
  /\ Mul(Eye(2), c.A) = c.A
  /\ Axpby(<<2, 1>>, c.A, <<0, 0>>, c.B) = Scale(<<2, 1>>, c.A)
DumpInv == (Dump /\ Mode = "space") => PrintT("CONFIG " \o ToJson(c))
=============================================================================
