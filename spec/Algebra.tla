------------------------------- MODULE Algebra -------------------------------
(* Matrices over the Gaussian integers: [m, n, v] with rows of <<re, im>>.   *)
EXTENDS Integers, Sequences
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
RMul(r, a) == <<r * a[1], r * a[2]>>
Zero == <<0, 0>>
Mx(m, n, f(_, _)) == [m |-> m, n |-> n, v |-> [i \in 1..m |-> [j \in 1..n |-> f(i, j)]]]
El(A, i, j) == A.v[i][j]
Herm(A) == Mx(A.n, A.m, LAMBDA i, j : Conj(El(A, j, i)))
RECURSIVE Dot(_, _, _, _, _)
Dot(A, B, i, j, k) == IF k = 0 THEN Zero ELSE CAdd(CMul(El(A, i, k), El(B, k, j)), Dot(A, B, i, j, k - 1))
Mul(A, B) == Mx(A.m, B.n, LAMBDA i, j : Dot(A, B, i, j, A.n))
Add(A, B) == Mx(A.m, A.n, LAMBDA i, j : CAdd(El(A, i, j), El(B, i, j)))
Scale(z, A) == Mx(A.m, A.n, LAMBDA i, j : CMul(z, El(A, i, j)))
ColScale(A, x) == Mx(A.m, A.n, LAMBDA i, j : RMul(x[j], El(A, i, j)))
\* results of the kernels
Inner(A, B) == Mul(Herm(A), B)
Outer(A, B) == Mul(A, Herm(B))
Axpby(al, A, be, C) == Add(Scale(al, A), Scale(be, C))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Zero ELSE CAdd(f[n], SumTo(f, n - 1))
TraceH(A, B) == SumTo([i \in 1..A.m |-> SumTo([j \in 1..A.n |-> CMul(El(A, i, j), Conj(El(B, i, j)))], A.n)], A.m)
MinI(a, b) == IF a < b THEN a ELSE b
DiagOf(A) == [i \in 1..MinI(A.m, A.n) |-> El(A, i, i)]
Eye(n) == Mx(n, n, LAMBDA i, j : IF i = j THEN <<1, 0>> ELSE Zero)
=============================================================================
