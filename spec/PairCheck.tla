------------------------------ MODULE PairCheck ------------------------------
(* Two runs that have to be equivalent (same problem, presented or executed  *)
(* differently).  ref and run are the observation kinds of both runs; dg[i]  *)
(* is the number of digits to which observation i agrees, sg[i] the number   *)
(* of digits to which it agrees between the reference and copies of the      *)
(* reference whose input was changed in the last digits (-1: even these take *)
(* different decisions, nothing can be concluded from there on).             *)
(* cfg.exact: the runs must agree bit for bit (tokens in ref and run).       *)
EXTENDS Integers, Sequences, Json, TLC

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES ti, pos, live, bad
vars == <<ti, pos, live, bad>>

T == Traces[ti]
Len2 == IF Len(T.ref) > Len(T.run) THEN Len(T.ref) ELSE Len(T.run)
Min(a, b) == IF a < b THEN a ELSE b
At(s, i, d) == IF i <= Len(s) THEN s[i] ELSE d

Init == ti \in 1..Len(Traces) /\ pos = 0 /\ live = TRUE /\ bad = {}

Step(i) ==
  LET r == At(T.ref, i, "end of run") x == At(T.run, i, "end of run") IN
  IF ~live THEN UNCHANGED <<live, bad>>
  ELSE IF T.cfg.exact
  THEN IF r = x THEN UNCHANGED <<live, bad>>
       ELSE live' = FALSE /\ bad' = bad \cup {<<T.cfg.prop, T.cfg.what>>}
  ELSE LET s == At(T.sg, i, -1) d == At(T.dg, i, -1) IN
       IF s < 0 /\ r # "end" THEN live' = FALSE /\ UNCHANGED bad
       ELSE IF r # x THEN live' = FALSE /\ bad' = bad \cup {<<T.cfg.prop, T.cfg.what \o ": another course of the run">>}
       ELSE IF d < Min(T.cfg.cap, s - T.cfg.slack)
            THEN live' = FALSE /\ bad' = bad \cup {<<T.cfg.prop, T.cfg.what \o ": different " \o r>>}
       ELSE UNCHANGED <<live, bad>>

Next == pos < Len2 /\ pos' = pos + 1 /\ Step(pos + 1) /\ ti' = ti
Spec == Init /\ [][Next]_vars

Verdict == pos = Len2 =>
  PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, IF live THEN 1 ELSE 0>>)
=============================================================================
