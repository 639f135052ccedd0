------------------------------ MODULE CollCheck ------------------------------
(* The collectives every rank issued in a run of the real library, as one    *)
(* program per rank.  The programs are executed: a collective completes when *)
(* all ranks stand at compatible ones.  A run in which they get stuck, or    *)
(* differ in kind, size, reduction or communicator, is a violation.          *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES ti, pos, bad, fin
vars == <<ti, pos, bad, fin>>
T == Traces[ti]
R == 1..Len(T.prog)
Op(r) == IF pos < Len(T.prog[r]) THEN T.prog[r][pos + 1] ELSE [op |-> "none", n |-> 0, x |-> "", c |-> "k", s |-> 0]

Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {} /\ fin = FALSE
Next ==
  /\ ~fin
  /\ ti' = ti
  /\ IF \A r \in R : Op(r).op = "none" THEN fin' = TRUE /\ UNCHANGED <<pos, bad>>
     ELSE LET b == (IF \E r, q \in R : Op(r).op # Op(q).op THEN {<<"C11", "ranks issue different collectives">>} ELSE {})
                \cup (IF \A r, q \in R : Op(r).op = Op(q).op
                      THEN (IF \E r, q \in R : Op(r).n # Op(q).n \/ Op(r).x # Op(q).x \/ Op(r).s # Op(q).s
                            THEN {<<"C11", "sizes or operation of a collective do not match">>} ELSE {}) ELSE {})
                \cup (IF \E r \in R : Op(r).c = "foreign" THEN {<<"C11", "collective outside the k-point communicator">>} ELSE {})
          IN /\ bad' = bad \cup b
             /\ IF b = {} THEN pos' = pos + 1 /\ fin' = FALSE ELSE pos' = pos /\ fin' = TRUE
Spec == Init /\ [][Next]_vars
Verdict == fin => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, Len(T.prog)>>)
=============================================================================
