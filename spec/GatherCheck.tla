----------------------------- MODULE GatherCheck -----------------------------
(* Results of the real gathers and reductions on all ranks against their     *)
(* definition.  data[r]: entries <<k, s, values>> of rank r; ord: the world  *)
(* rank of each rank of the communicator; got[r]: what rank r received.      *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, bad
vars == <<ti, pos, bad>>
T == Traces[ti]
O == T.ops[pos + 1]
Range(s) == { s[i] : i \in 1..Len(s) }
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {}

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
All(o) == Cat(o.data)
Firsts(s) == [i \in 1..Len(s) |-> s[i][3][1]]
First1(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2], <<s[i][3][1]>>>>]
RanksOf(o) == 1..Len(o.data)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
V(w) == {<<"C12", w>>}

Judge(o) ==
  IF o.refuse THEN (IF \A r \in RanksOf(o) : o.exc[r] THEN {} ELSE V("gather over a communicator smaller than that of the data is not refused"))
  ELSE IF \E r \in RanksOf(o) : o.exc[r] THEN V("a valid gather or reduction fails")
  ELSE CASE o.kind = "gather" ->
         LET want == Range(IF o.scalar THEN First1(All(o)) ELSE All(o)) IN
         (IF \E r \in RanksOf(o) : Range(o.got[r]) # want \/ Len(o.got[r]) # Cardinality(want)
          THEN V("gathered collection is not the union of all ranks' entries") ELSE {})
         \cup (IF \E r \in RanksOf(o) : o.size[r] # 1 THEN V("gathered collection is not local") ELSE {})
         \cup (IF ~o.scalar /\ \E r \in RanksOf(o) : Range(o.src[r]) # Range(o.data[r]) THEN V("gather changes the local data") ELSE {})
    [] o.kind = "sum" -> IF \A r \in RanksOf(o) : o.got[r] = Sum(Firsts(All(o))) THEN {} ELSE V("sum over keys is not the sum over all ranks")
    [] o.kind = "reduce" ->
         LET w == CASE o.red = "sum" -> Sum(o.vals) [] o.red = "min" -> Min(Range(o.vals)) [] o.red = "max" -> Max(Range(o.vals)) IN
         IF \A r \in RanksOf(o) : o.got[r] = w THEN {} ELSE V("reduction does not deliver the " \o o.red \o " over all ranks")
    [] o.kind = "list" ->
         LET L(r) == Cat([i \in 1..Len(o.data[r]) |-> o.data[r][i][3]]) IN
         IF \A r \in RanksOf(o) : o.got[r] = [i \in RanksOf(o) |-> L(o.ord[i])] THEN {} ELSE V("gathered lists are not those of the ranks")

Next == pos < Len(T.ops) /\ bad' = bad \cup Judge(O) /\ pos' = pos + 1 /\ ti' = ti
Spec == Init /\ [][Next]_vars
Verdict == pos = Len(T.ops) => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
