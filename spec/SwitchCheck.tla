----------------------------- MODULE SwitchCheck -----------------------------
(* Chemical potentials of the real code under a setting of the switch:       *)
(*   ne     : digits of the electron balance,                                *)
(*   dn, ds : digits of agreement with the Newton minimisation / the search  *)
(*            (spectra on which the two differ; in units of kT).             *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, bad
vars == <<ti, pos, bad>>
T == Traces[ti]
O == T.ops[pos + 1]
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
If(c, r) == IF c THEN {<<"C25", r>>} ELSE {}
Judge(o) ==
  LET off == o.setting \in {"unset", "zero"} IN
  If(o.exc, "no chemical potential found although there is one")
  \cup If(~o.exc /\ o.mono /\ o.ne < 9, "a monotone smearing depends on the switch (electron number not met)")
  \cup If(~o.exc /\ o.mono /\ o.dn < 5, "a monotone smearing depends on the switch")
  \cup If(~o.exc /\ ~o.mono /\ ~off /\ o.ne < 9, "switch on: electron number not met exactly")
  \cup If(~o.exc /\ ~o.mono /\ off /\ o.ne < 2, "switch off: electron number not met")
  \cup If(~o.exc /\ ~o.mono /\ off /\ o.dn < 4, "switch off: not the Newton minimum next to the potential of Gauss smearing")
Next == pos < Len(T.ops) /\ bad' = bad \cup Judge(O) /\ pos' = pos + 1 /\ ti' = ti
Spec == Init /\ [][Next]_vars
Verdict == pos = Len(T.ops) => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
