-------------------------------- MODULE Sinks --------------------------------
(* The step log, the text log and the console are outputs only.  A call runs *)
(* in a world in which each of the two log files is absent, left over from   *)
(* an earlier run, or stands for something that cannot be written (a         *)
(* directory, a full device behind a link, a link to nowhere), in which the  *)
(* working directory may be gone, the console may refuse output and the      *)
(* stream formats and the locale may have been changed by the caller.        *)
(* Checked: the course of the run (its decisions, taken from the problem) is *)
(* the same in every world, it ends, and if the step log can be written it   *)
(* holds exactly the records of this run.  The worlds are dumped; the real   *)
(* code is run in them.                                                      *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxIt, Dump, BUG

Files == {"absent", "stale", "dir", "full", "dangling"}
Consoles == {"file", "full", "bad", "format"}
\* the problem decides what happens in each iteration
Kinds == {"down", "restart", "stop"}

VARIABLES world, prob, it, course, json, out, pc
vars == <<world, prob, it, course, json, out, pc>>

Worlds == [json : Files, out : Files, console : Consoles, locale : BOOLEAN, cwd : BOOLEAN]
\* worlds that differ from the plain one in at most two respects
Plain == [json |-> "absent", out |-> "absent", console |-> "file", locale |-> FALSE, cwd |-> FALSE]
Dist(w) == (IF w.json # "absent" THEN 1 ELSE 0) + (IF w.out # "absent" THEN 1 ELSE 0) + (IF w.console # "file" THEN 1 ELSE 0)
           + (IF w.locale THEN 1 ELSE 0) + (IF w.cwd THEN 2 ELSE 0)
Probs == [1..MaxIt -> Kinds]

Init ==
  /\ world \in { w \in Worlds : Dist(w) <= 2 } /\ prob \in Probs
  /\ it = 0 /\ course = <<>> /\ pc = "start"
  /\ json = [lines |-> IF world.json = "stale" THEN <<"old">> ELSE <<>>, ok |-> TRUE]
  /\ out = [ok |-> TRUE]
\* attach the text log, remove the step log
Start ==
  /\ pc = "start" /\ pc' = "iter"
  /\ json' = [lines |-> IF BUG = "keep" THEN json.lines ELSE <<>>,
              ok |-> world.json # "dir" /\ ~world.cwd]     \* a link is removed, not followed
  /\ out' = [ok |-> world.out \in {"absent", "stale"} /\ ~world.cwd]
  /\ UNCHANGED <<world, prob, it, course>>
Iterate ==
  /\ pc = "iter" /\ it < MaxIt
  /\ json' = IF json.ok THEN [json EXCEPT !.lines = Append(@, <<it, prob[it + 1]>>)] ELSE json
  /\ IF BUG = "throw" /\ ~json.ok THEN course' = Append(course, <<0, "error">>) /\ pc' = "done"
     ELSE IF BUG = "wait" /\ ~out.ok THEN course' = course /\ pc' = "iter" /\ FALSE
     ELSE IF BUG = "count" THEN
       \* the number of the iteration is read back from the log
       course' = Append(course, <<Len(json'.lines), prob[it + 1]>>) /\ pc' = IF prob[it + 1] = "stop" THEN "done" ELSE "iter"
     ELSE course' = Append(course, <<it + 1, prob[it + 1]>>) /\ pc' = IF prob[it + 1] = "stop" THEN "done" ELSE "iter"
  /\ it' = it + 1
  /\ UNCHANGED <<world, prob, out>>
Budget == pc = "iter" /\ it = MaxIt /\ pc' = "done" /\ UNCHANGED <<world, prob, it, course, json, out>>
Next == Start \/ Iterate \/ Budget
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Stop == { i \in 1..MaxIt : prob[i] = "stop" }
Length == IF Stop = {} THEN MaxIt ELSE CHOOSE i \in Stop : \A j \in Stop : i <= j
Independent == \A i \in 1..Len(course) : course[i] = <<i, prob[i]>>
Complete == pc = "done" => Len(course) = Length
Faithful == (pc # "start" /\ world.json # "dir" /\ ~world.cwd) => json.lines = [i \in 1..Len(course) |-> <<i - 1, prob[i]>>]
Ends == <>(pc = "done")
DumpInv == (Dump /\ pc = "start" /\ \A i \in 1..MaxIt : prob[i] = "down") => PrintT("CONFIG " \o ToJson(world))
=============================================================================
