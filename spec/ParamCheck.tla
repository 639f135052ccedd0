----------------------------- MODULE ParamCheck ------------------------------
(* Two runs of the real code on the same problem with different parameters   *)
(* (see Params).  a, b: the steps of both runs (record, trials and chemical  *)
(* potentials of an iteration); ah, bh: the records alone (one more than     *)
(* steps when the run converged); all preceded by an entry for what happens  *)
(* before the first iteration; multi: number of the first step of either run *)
(* with more than two trials, 99 if none; same: which parameters agree.      *)
EXTENDS Integers, Sequences, Json, TLC

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES ti, i, bad
vars == <<ti, i, bad>>
T == Traces[ti]
Min(x, y) == IF x < y THEN x ELSE y

FirstDiff == { n \in 1..60 : ((n - 1) % T.p.restart = 0) # ((n - 1) % T.q.restart = 0) }
SameKinds == IF T.p.restart = T.q.restart \/ FirstDiff = {} THEN 99 ELSE CHOOSE x \in FirstDiff : \A y \in FirstDiff : x <= y
\* the record written before the step that needs tau is still the same, the step is not
HeadsUntil == 1 + Min(SameKinds, IF T.same.tau THEN 99 ELSE T.multi)
StepsUntil == Min(1 + SameKinds, IF T.same.tau THEN 99 ELSE T.multi)
N == Min(Min(Len(T.ah), Len(T.bh)), HeadsUntil)

Init == ti \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Next ==
  /\ i < N /\ i' = i + 1 /\ ti' = ti
  /\ bad' = (IF T.ah[i + 1] # T.bh[i + 1] THEN bad \cup {<<"C30", "a parameter changes the run where it must not: record">>}
             ELSE IF i < Len(T.a) /\ i < Len(T.b) /\ i < StepsUntil /\ T.a[i + 1] # T.b[i + 1]
                  THEN bad \cup {<<"C30", "a parameter changes the run where it must not: step">>} ELSE bad)
Spec == Init /\ [][Next]_vars

\* budget and tolerance only decide where the run stops
Order == IF ~T.same.restart \/ ~T.same.tau THEN {}
         ELSE IF T.p.maxiter <= T.q.maxiter /\ T.tolOrder >= 0 /\ Len(T.a) > Len(T.b) THEN {<<"C30", "a smaller budget or looser tolerance gives a longer run">>}
         ELSE IF T.p.maxiter >= T.q.maxiter /\ T.tolOrder <= 0 /\ Len(T.a) < Len(T.b) THEN {<<"C30", "a larger budget or tighter tolerance gives a shorter run">>}
         ELSE {}
All == bad \cup Order
Verdict == i = N => PrintT(<<"VERDICT", T.id, IF All = {} THEN "ok" ELSE "bad", All, N, IF N > 0 THEN 1 ELSE 0>>)
=============================================================================
