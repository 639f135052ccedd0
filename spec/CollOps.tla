------------------------------- MODULE CollOps -------------------------------
(* Splitting a collection of tuples, applying a keyed operator, deep copy    *)
(* and communicators of evaluated collections: results of the real code      *)
(* against their definition.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, bad
vars == <<ti, pos, bad>>
T == Traces[ti]
O == T.ops[pos + 1]
Range(s) == { s[i] : i \in 1..Len(s) }
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
V(w) == {<<"C20", w>>}
Count(s, e) == Cardinality({ i \in 1..Len(s) : s[i] = e })
Judge(o) ==
  IF o.exc THEN V("a valid operation on a collection fails")
  ELSE CASE o.op = "unzip" ->
         (IF \A g \in Range(o.got) : Range(g) = { <<e[1], e[2], e[3], e[3]>> : e \in Range(o.v) } /\ Len(g) = Len(o.v)
          THEN {} ELSE V("splitting a collection of tuples loses or mixes components"))
         \cup (IF o.good /\ \A i \in 1..Len(o.n) : o.n[i] = Len(o.v) THEN {} ELSE V("a component collection has other entries than the tuples"))
         \cup (IF \A i \in 1..Len(o.c) : o.c[i] = T.nr THEN {} ELSE V("split collections ignore the given communicator"))
    [] o.op = "opmap" ->
         LET want == { <<e[1], e[2], 2 * e[3] + e[1], e[2]>> : e \in Range(o.v) } IN
         (IF \A f \in Range(o.forces) : Range(f) = want /\ Len(f) = Len(o.v) THEN {} ELSE V("a keyed operator is not applied to the element of its key"))
         \cup (IF o.n[1] = 0 /\ Len(o.calls) = o.times * Len(o.v) /\ \A e \in Range(o.v) : Count(o.calls, e) = o.times
               THEN {} ELSE V("a keyed operator is not called once per key and evaluation"))
         \cup (IF o.c[1] = T.nr THEN {} ELSE V("result does not keep the communicator of its operand"))
         \cup (IF Range(o.copy) = Range(o.v) /\ Len(o.copy) = Len(o.v) THEN {} ELSE V("a copied collection shares its elements"))
    [] o.op = "evalcomm" ->   \* one entry 1 per rank mapped to 3: the lazy collection spans the ranks, the evaluated one is local
         IF o.eval = <<T.nr, T.nr, 3 * T.nr, 3>> THEN {} ELSE V("communicator of a mapped or evaluated collection")
Next == pos < Len(T.ops) /\ bad' = bad \cup Judge(O) /\ pos' = pos + 1 /\ ti' = ti
Spec == Init /\ [][Next]_vars
Verdict == pos = Len(T.ops) => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
