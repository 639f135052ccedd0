----------------------------- MODULE SmearCheck ------------------------------
(* Occupations, chemical potential and entropy of keyed spectra computed by  *)
(* the real code, against the definitions (errors as correct digits):        *)
(*   exists : is there a chemical potential ("yes", "no", "any")             *)
(*   ne     : electron count, fb : occupations in their bounds,              *)
(*   st     : the count is stationary at the returned potential,             *)
(*   fd, ss : occupations and entropy vs the smearing function,              *)
(*   same   : all ranks return the same potential and entropy.               *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, pos, bad
vars == <<ti, pos, bad>>
T == Traces[ti]
O == T.ops[pos + 1]
Init == ti \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
If(c, p, r) == IF c THEN {<<p, r>>} ELSE {}
Judge(o) ==
  LET failed == \E r \in 1..Len(o.exc) : o.exc[r]
      all    == \A r \in 1..Len(o.exc) : o.exc[r] IN
  IF failed THEN If(o.exists = "yes", "C07", "no chemical potential found although there is one")
                 \cup If(~all, "C10", "ranks disagree about the failure of the search")
  ELSE If(o.exists = "no", "C07", "a chemical potential is returned although there is none")
       \cup If(o.mono /\ o.ne < 9, "C07", "electron number not conserved")
       \cup If(~o.mono /\ o.ne < 2, "C07", "electron number not conserved")
       \cup If(~o.mono /\ o.ne < 7 /\ ~o.st, "C07", "electron number off although the count is not stationary")
       \cup If(~o.fb, "C07", "occupation outside its bounds")
       \cup If(o.fd < 9, "C08", "occupations do not follow the smearing function")
       \cup If(o.ss < 9, "C08", "entropy does not follow the smearing function")
       \cup If(~o.keys, "C15", "occupations not returned under the keys of the spectrum")
       \cup If(~o.keys, "C07", "occupations not returned under the keys of the spectrum")
       \cup If(~o.same, "C10", "ranks disagree about chemical potential or entropy")
       \cup If(~o.same, "C07", "ranks disagree about the chemical potential")
       \cup If(~o.kept, "C05", "input of the search modified")
Next == pos < Len(T.ops) /\ bad' = bad \cup Judge(O) /\ pos' = pos + 1 /\ ti' = ti
Spec == Init /\ [][Next]_vars
Verdict == pos = Len(T.ops) => PrintT(<<"VERDICT", T.id, IF bad = {} THEN "ok" ELSE "bad", bad, pos, 0>>)
=============================================================================
