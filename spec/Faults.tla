------------------------------- MODULE Faults --------------------------------
(* A host callback may fail (raise an error) at any point of a minimisation. *)
(* The library is a stack of frames: the call itself, the iteration (which   *)
(* handles the library's own "no descent" and "ascent" conditions) and the   *)
(* line search (which handles its own "step rejected").  An own condition is *)
(* handled by the frame that knows it; a host error is handled by none, so   *)
(* it ends the call, is what the caller gets, and nothing more is asked of   *)
(* the host that would change it.  Callbacks: "read" (getters), "op"         *)
(* (overlap, preconditioner), "give" (state handed over), "eval".            *)
(* BUG: "ls" the line search takes a host error for a rejected step, "iter"  *)
(* the iteration takes it for a failed search, "rename" another error is     *)
(* delivered, "tidy" the state is put back first.                            *)
(* The places of failure are dumped and injected into the real code.         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxIt, MaxEval, Dump, BUG
Cb == {"read", "op", "give", "eval"}
VARIABLES frames, it, ne, seen, err, after, end, err0
vars == <<frames, it, ne, seen, err, after, end, err0>>
Top == frames[Len(frames)]
Pop == SubSeq(frames, 1, Len(frames) - 1)
Init == frames = <<"call">> /\ it = 0 /\ ne = 0 /\ seen = [c \in Cb |-> 0] /\ err = "none" /\ after = 0 /\ end = "no" /\ err0 = [cb |-> "none", n |-> 0, at |-> "none"]
Running == end = "no" /\ err = "none"

(* one callback; it may fail *)
Ask(c) ==
  /\ Running /\ (c = "eval" => ne < MaxEval) /\ seen[c] < MaxEval
  /\ (Top = "call" => c # "op" \/ it = 0)
  /\ seen' = [seen EXCEPT ![c] = @ + 1]
  /\ ne' = IF c = "eval" THEN ne + 1 ELSE ne
  /\ after' = IF err0.cb # "none" /\ c # "read" THEN after + 1 ELSE after
  /\ \/ err' = "none" /\ err0' = err0
     \/ err0.cb = "none" /\ err' = "host" /\ err0' = [cb |-> c, n |-> seen[c] + 1, at |-> Top]
  /\ UNCHANGED <<frames, it, end>>
StartIter == Running /\ Top = "call" /\ it < MaxIt /\ frames' = Append(frames, "iter") /\ it' = it + 1
             /\ UNCHANGED <<ne, seen, err, after, end, err0>>
StartLs == Running /\ Top = "iter" /\ frames' = Append(frames, "ls") /\ UNCHANGED <<it, ne, seen, err, after, end, err0>>
Leave == Running /\ Top \in {"iter", "ls"} /\ frames' = Pop /\ UNCHANGED <<it, ne, seen, err, after, end, err0>>
Own == Running /\ Top \in {"iter", "ls"} /\ err' = (IF Top = "ls" THEN "step" ELSE "descent")
       /\ UNCHANGED <<frames, it, ne, seen, after, end, err0>>
Return == Running /\ Top = "call" /\ end' = "result" /\ UNCHANGED <<frames, it, ne, seen, err, after, err0>>
(* unwinding *)
Handles(fr, e) == \/ fr = "ls" /\ e = "step"
                  \/ fr = "iter" /\ e \in {"step", "descent"}
                  \/ fr = "ls" /\ e = "host" /\ BUG = "ls"
                  \/ fr = "iter" /\ e = "host" /\ BUG = "iter"
Unwind == /\ end = "no" /\ err # "none"
          /\ after' = IF BUG = "tidy" /\ err = "host" /\ Top = "ls" THEN after + 1 ELSE after
          /\ IF Handles(Top, err)
             THEN IF Top = "iter" THEN end' = "result" /\ err' = "none" /\ frames' = <<"call">>
                  ELSE end' = end /\ err' = "none" /\ frames' = frames        \* backtracking goes on in the same frame
             ELSE IF Len(frames) = 1
             THEN end' = (IF BUG = "rename" THEN "other" ELSE err) /\ UNCHANGED <<frames, err>>
             ELSE frames' = Pop /\ UNCHANGED <<end, err>>
          /\ UNCHANGED <<it, ne, seen, err0>>
Next == (\E c \in Cb : Ask(c)) \/ StartIter \/ StartLs \/ Leave \/ Own \/ Return \/ Unwind
Spec == Init /\ [][Next]_vars

Delivered == (end # "no" /\ err0.cb # "none") => end = "host"
NoErrorInvented == (end \notin {"no", "result"}) => err0.cb # "none"
NothingAfter == after = 0
DumpInv == (Dump /\ err0.cb # "none" /\ end # "no") => PrintT("CONFIG " \o ToJson(err0))
=============================================================================
