------------------------------- MODULE Session -------------------------------
(* A process makes calls on several hosts.  Process-wide state (attached log *)
(* file, console flag, cached settings) is modified by every call; the state *)
(* of a host only by calls on that host.  Results are modelled symbolically: *)
(* the result of a call is the term Res(kind, state of its host).  Checked:  *)
(* the results of the calls on a host are those of the same calls made alone *)
(* (projection), whatever the rest of the process did.  With leaking process *)
(* state (BUG) they are not.  Histories are dumped and run.                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Hosts, Kinds, Depth, Dump, BUG

VARIABLES hist, hstate, proc, res
vars == <<hist, hstate, proc, res>>

Refusing(k) == k \in {"dev", "t0", "mvp2", "smear9"}
Init == hist = <<>> /\ hstate = [h \in Hosts |-> <<>>] /\ proc = [log |-> "none", quiet |-> FALSE, last |-> "none"]
        /\ res = <<>>
Call(h, k) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, <<h, k>>)
  /\ hstate' = [hstate EXCEPT ![h] = IF Refusing(k) THEN @ ELSE Append(@, k)]
  /\ proc' = IF Refusing(k) THEN proc ELSE [log |-> "nlcg.out", quiet |-> TRUE, last |-> k]
  /\ res' = Append(res, <<h, k, hstate[h], IF BUG = "leak" THEN proc.last ELSE "none">>)
Next == \E h \in Hosts, k \in Kinds : Call(h, k)
Spec == Init /\ [][Next]_vars

\* the calls of the history on host h, alone
RECURSIVE Replay(_, _, _)
Replay(cs, st, last) ==
  IF cs = <<>> THEN <<>>
  ELSE LET h == Head(cs)[1] k == Head(cs)[2] IN
       <<<<h, k, st, IF BUG = "leak" THEN last ELSE "none">>>> \o
       Replay(Tail(cs), IF Refusing(k) THEN st ELSE Append(st, k), IF Refusing(k) THEN last ELSE k)
Of(s, h) == SelectSeq(s, LAMBDA x : x[1] = h)
NonInterference == \A h \in Hosts : Of(res, h) = Replay(Of(hist, h), <<>>, "none")
RefusedLeaveNoTrace == \A h \in Hosts : \A i \in 1..Len(hstate[h]) : ~Refusing(hstate[h][i])
DumpInv == (Dump /\ Len(hist) = Depth) => PrintT("CONFIG " \o ToJson([calls |-> hist]))
=============================================================================
