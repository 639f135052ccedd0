------------------------------ MODULE LazyCheck ------------------------------
(* Programs over keyed collections executed by the real code, step by step,  *)
(* against LazySpec.  steps[i]: calls <<node, x, y>> made during command i,  *)
(* vals/keys of the register it creates, size of its communicator, sum.      *)
EXTENDS LazySpec, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, R, hist, bad
vars == <<ti, pos, R, hist, bad>>
T == Traces[ti]
C == T.prog[pos + 1]
O == T.steps[pos + 1]
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ R = <<>> /\ hist = <<>> /\ bad = {}
V(w) == {<<"C20", w>>}
Triples(f) == { <<k[1], k[2], f[k]>> : k \in DOMAIN f }
Pairs(f) == { <<k[1], k[2]>> : k \in DOMAIN f }
Count(s, e) == Cardinality({ i \in 1..Len(s) : s[i] = e })
\* calls of node n's function, with their multiplicity, that one complete evaluation makes
CallsOf(args, n) == { <<n, args[k][1], args[k][2]>> : k \in DOMAIN args }
Mult(args, n, e) == Cardinality({ k \in DOMAIN args : <<n, args[k][1], args[k][2]>> = e })
Exactly(s, args, n, times) ==
   LET mine == SelectSeq(s, LAMBDA e : e[1] = n) IN
   /\ RangeOf(mine) \subseteq CallsOf(args, n)
   /\ \A e \in CallsOf(args, n) : Count(mine, e) = times * Mult(args, n, e)
AtMost(s, args, n, times) ==
   LET mine == SelectSeq(s, LAMBDA e : e[1] = n) IN
   /\ RangeOf(mine) \subseteq CallsOf(args, n)
   /\ \A e \in CallsOf(args, n) : Count(mine, e) <= times * Mult(args, n, e)
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET k == CHOOSE k \in D : TRUE IN f[k] + Sum(f, D \ {k})
Judge(c, o, Rn) ==
  LET n == Len(Rn) new == Rn[n] IN
  (IF c.c \in Creates \cup {"src", "dup", "force"} /\ (RangeOf(o.keys) # Pairs(new.val) \/ Len(o.keys) # Cardinality(DOMAIN new.val))
   THEN V("result has other keys than the collection") ELSE {})
  \cup (IF c.c = "force" /\ RangeOf(o.vals) # Triples(new.val) THEN V("evaluation gives a wrong value") ELSE {})
  \cup (IF c.c = "sum" /\ o.sum # (IF R[c.a].comm = "world" THEN T.nr ELSE 1) * Sum(R[c.a].val, DOMAIN R[c.a].val)
        THEN V("sum is not the sum over the keys of all ranks") ELSE {})
  \cup (IF c.c \in Creates /\ o.size # (IF new.comm = "world" THEN T.nr ELSE 1)
        THEN V("result does not keep the communicator of its first operand") ELSE {})
  \cup (IF c.c \in {"map", "map2"} /\ \E e \in RangeOf(o.calls) : e[1] = n THEN V("a lazy application is evaluated when created") ELSE {})
  \cup (IF c.c \in {"force", "exec", "sum"} /\ R[c.a].kind = "lazy" /\ R[c.a].op # "mul" /\ ~Exactly(o.calls, R[c.a].args, R[c.a].node, 1)
        THEN V("forcing does not call the function once per key with that key's operands") ELSE {})
  \cup (IF c.c = "set" /\ Len(o.calls) > 0 THEN V("an assignment calls functions") ELSE {})
\* the registers carry the node of the application they store
Tag(Rn) == [i \in 1..Len(Rn) |-> IF "node" \in DOMAIN Rn[i] THEN Rn[i]
              ELSE [kind |-> Rn[i].kind, val |-> Rn[i].val, args |-> Rn[i].args, comm |-> Rn[i].comm, op |-> Rn[i].op,
                    a |-> Rn[i].a, b |-> Rn[i].b, node |-> i]]
\* totals at the end: futures once per key; nothing is called with operands of another key
End ==
  LET all == hist  live == { i \in 1..Len(R) : R[i].node = i /\ R[i].kind # "val" /\ R[i].op # "mul" } IN
  (IF \E i \in live : R[i].kind = "fut" /\ ~AtMost(all, R[i].args, i, 1) THEN V("a stored asynchronous result is computed more than once") ELSE {})
  \cup (IF \E i \in live : R[i].kind = "lazy" /\ \E e \in RangeOf(SelectSeq(all, LAMBDA x : x[1] = i)) : e \notin CallsOf(R[i].args, i)
        THEN V("a function is called with operands of another key") ELSE {})
  \cup (IF \E e \in RangeOf(all) : e[1] \notin live THEN V("an unknown application is called") ELSE {})
Next == /\ pos < Len(T.prog) /\ ti' = ti /\ pos' = pos + 1
        /\ IF ~T.ok THEN R' = R /\ hist' = hist /\ bad' = V("a valid program fails")
           ELSE IF ~Defined(R, C) THEN R' = R /\ hist' = hist /\ bad' = bad
           ELSE LET Rn == Tag(Exec(R, C)) IN
                R' = Rn /\ hist' = hist \o O.calls /\ bad' = bad \cup Judge(C, O, Rn)
Spec == Init /\ [][Next]_vars
Verdict == pos = Len(T.prog) => LET b == bad \cup (IF T.ok THEN End ELSE {}) IN
             PrintT(<<"VERDICT", T.id, IF b = {} THEN "ok" ELSE "bad", b, pos, Len(R)>>)
=============================================================================
