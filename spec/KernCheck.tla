------------------------------ MODULE KernCheck ------------------------------
(* Results of the real matrix kernels against module Algebra.  A refusal     *)
(* (exception) is a valid answer for operands in row-major layout only, and  *)
(* must leave the destination unchanged.                                     *)
EXTENDS Algebra, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, bad
vars == <<ti, pos, bad>>
T == Traces[ti]
O == T.ops[pos + 1]
V(o, w) == {<<"C18", o.op \o ": " \o w>>}
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {}

Same(o, want) == o.out = want.v
Want(o) ==
  CASE o.op = "inner" -> Add(Scale(o.alpha, Inner(o.A, o.B)), Scale(o.beta, o.C))
    [] o.op = "outer" -> Add(Scale(o.alpha, Outer(o.A, o.B)), Scale(o.beta, o.C))
    [] o.op = "transform" -> Add(Scale(o.alpha, Mul(o.A, o.B)), Scale(o.beta, o.C))
    [] o.op \in {"add", "_add"} -> Axpby(o.alpha, o.A, o.beta, o.C)
    [] o.op = "scalecol" -> Axpby(o.alpha, ColScale(o.A, o.x), o.beta, o.C)
    [] o.op = "scalemat" -> Axpby(o.alpha, o.A, o.beta, o.C)
    [] o.op = "deepcopy" -> o.A
    [] o.op = "copy" -> o.A
    [] o.op = "zeros" -> Mx(o.A.m, o.A.n, LAMBDA i, j : Zero)
    [] o.op = "gram" -> Inner(o.A, o.A)
    [] o.op = "inneralloc" -> Scale(o.alpha, Inner(o.A, o.B))
    [] o.op = "transformalloc" -> Scale(o.alpha, Mul(o.A, o.B))
    [] o.op = "makediag" -> Mx(Len(o.x), Len(o.x), LAMBDA i, j : IF i = j THEN <<o.x[i], -o.x[i]>> ELSE Zero)
WantVec(o) == CASE o.op = "diag" -> DiagOf(o.A) [] o.op = "trace" -> <<TraceH(o.A, o.B)>>
Judge(o) ==
  (IF ~o.kept THEN V(o, "an input was changed") ELSE {}) \cup
  (IF o.stray # 0 THEN V(o, "memory outside the destination was changed") ELSE {}) \cup
  CASE o.op \in {"diag", "trace"} -> IF o.vec = WantVec(o) THEN {} ELSE V(o, "wrong result")
    [] o.op = "reduce2" -> LET t == TraceH(o.A, o.B) n == TraceH(o.A, o.A) IN
         IF o.vec = <<o.nk * t[1], o.nk * n[1]>> THEN {} ELSE V(o, "wrong result")
    [] o.op = "linspace" -> IF o.vec = [i \in 1..o.n |-> o.a + (i - 1) * o.step] THEN {} ELSE V(o, "wrong result")
    [] o.op = "empty" -> IF o.shape = <<o.A.m, o.A.n>> THEN {} ELSE V(o, "wrong shape")
    [] o.op \in {"eigh", "solve", "loewdin"} ->
         IF o.exc /\ o.mayRefuse THEN {} ELSE
         (IF \E i \in 1..Len(o.dg) : o.dg[i] < 10 THEN V(o, "residual too large") ELSE {})
         \cup (IF ~o.good THEN V(o, "wrong order or not positive") ELSE {})
    [] o.exc -> IF ~o.mayRefuse THEN V(o, "fails") ELSE IF o.out # o.C.v THEN V(o, "refused but destination changed") ELSE {}
    [] OTHER -> LET w == Want(o) IN
         (IF o.shape # <<w.m, w.n>> THEN V(o, "wrong shape") ELSE IF ~Same(o, w) THEN V(o, "wrong result") ELSE {})
         \cup (IF ~o.good THEN V(o, "result shares memory with its source") ELSE {})
Next == pos < Len(T.ops) /\ bad' = bad \cup Judge(O) /\ pos' = pos + 1 /\ ti' = ti
Spec == Init /\ [][Next]_vars
Verdict == pos = Len(T.ops) => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
