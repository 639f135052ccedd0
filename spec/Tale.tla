-------------------------------- MODULE Tale ---------------------------------
(* The story a run tells.  A run of the minimiser takes its decisions in any *)
(* possible way and writes its text log; what happened (evs: records,        *)
(* evaluations, directions, end) is kept apart.  Checked: the log is in the  *)
(* language of TaleRules, and a reader of the log alone recovers what        *)
(* happened.  BUG: narrators that leave something out or say something else. *)
EXTENDS TaleRules, Json, TLC
CONSTANTS MaxIt, MaxInc, MaxBt, BUG

VARIABLES pc, it, force, k, evs, txt, dir
vars == <<pc, it, force, k, evs, txt, dir>>
Init == pc = "loop" /\ it = 0 /\ force = FALSE /\ k = 0 /\ evs = <<>> /\ txt = <<>> /\ dir = "SD"

Say(s) == txt' = txt \o s
Do(s) == evs' = evs \o s
Point(n) == << [k |-> "iter", n |-> n], [k |-> "S", n |-> n], [k |-> "mu", n |-> n], [k |-> "KS", n |-> n] >>
T(x) == << [k |-> x, n |-> it] >>
E(x) == << [k |-> x, n |-> it, dir |-> ""] >>
Rec == << [k |-> "rec", n |-> it, dir |-> dir] >>

Loop ==
  /\ pc = "loop"
  /\ \/ /\ it = MaxIt /\ pc' = "end" /\ Do(E("budget")) /\ Say(IF BUG = "success" THEN T("success") ELSE <<>>)
        /\ UNCHANGED <<it, force, k, dir>>
     \/ /\ it < MaxIt /\ Do(Rec \o E("conv")) /\ pc' = "end"
        /\ Say(Point(it) \o T("fS") \o T("fF") \o T("fKS") \o T("success")) /\ UNCHANGED <<it, force, k, dir>>
     \/ /\ it < MaxIt /\ Do(Rec \o E("noway")) /\ pc' = "end" /\ dir = "CG"
        /\ Say(Point(it) \o T("slopeerr")) /\ UNCHANGED <<it, force, k, dir>>
     \/ /\ it < MaxIt /\ Do(Rec \o E("eval")) /\ pc' = "q" /\ k' = 0
        /\ Say(Point(IF BUG = "number" /\ force THEN it - 1 ELSE it) \o T("trial")) /\ UNCHANGED <<it, force, dir>>
Quad ==
  /\ pc = "q"
  /\ \/ /\ k < MaxInc /\ k' = k + 1 /\ Do(E("eval")) /\ Say(IF BUG = "inc" /\ k > 0 THEN <<>> ELSE T("inc")) /\ pc' = pc
     \/ /\ Do(E("eval")) /\ Say(T("tmin")) /\ pc' = "accept" /\ k' = 0
     \/ /\ Do(E("eval")) /\ Say(T("tmin") \o T("qfail") \o T("fb")) /\ pc' = "b" /\ k' = 0
     \/ /\ Do(<<>>) /\ Say(T("fb")) /\ pc' = "b" /\ k' = 0
  /\ UNCHANGED <<it, force, dir>>
Back ==
  /\ pc = "b"
  /\ \/ /\ Do(E("eval")) /\ Say(T("fd") \o T("fd2")) /\ pc' = "accept" /\ k' = 0
     \/ /\ k < MaxBt /\ Do(E("eval")) /\ Say((IF BUG = "onlyAccepted" THEN <<>> ELSE T("fd")) \o T("bt")) /\ k' = k + 1 /\ pc' = pc
     \/ /\ k = MaxBt /\ Do(E("eval")) /\ Say(<<>>) /\ k' = 0 /\ pc' = IF force THEN "lost" ELSE "reset"
  /\ UNCHANGED <<it, force, dir>>
Lost == pc = "lost" /\ Do(E("giveup")) /\ Say(T("nodescent")) /\ pc' = "end" /\ UNCHANGED <<it, force, k, dir>>
Direction ==
  /\ pc \in {"accept", "reset"}
  /\ \E d \in {"sd", "cg", "up"} :
       /\ pc = "reset" => d = "sd"
       /\ dir' = (IF d = "cg" THEN "CG" ELSE "SD")
       /\ force' = (pc = "reset" \/ d = "up")
       /\ Say(T("lsEnd") \o (IF d = "up" THEN (IF BUG = "quiet" THEN T("cg") ELSE T("restart") \o T("cg")) ELSE T(d)))
  /\ it' = it + 1 /\ pc' = "loop" /\ Do(<<>>) /\ UNCHANGED k
Next == Loop \/ Quad \/ Back \/ Lost \/ Direction
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Names == [i \in 1..Len(txt) |-> txt[i].k]
Prev(i) == IF i = 1 THEN "start" ELSE Names[i - 1]
InLanguage == /\ \A i \in 1..Len(txt) : Names[i] \in Next1(Prev(i))
              /\ pc = "end" => "end" \in Next1(Prev(Len(txt) + 1))

\* what a reader of the log knows
Rep(x, n) == [i \in 1..n |-> x]
Last(s) == IF s = <<>> THEN "" ELSE s[Len(s)]
RECURSIVE Read(_, _)
Read(i, d) ==
  IF i > Len(txt) THEN <<>>
  ELSE LET t == txt[i].k p == Prev(i) IN
    (IF t = "iter" THEN << [k |-> "rec", n |-> txt[i].n, dir |-> d] >> ELSE <<>>)
    \o Rep([k |-> "eval", n |-> 0, dir |-> ""], Cost(p, t))
    \o (IF t = "success" THEN << [k |-> "conv", n |-> 0, dir |-> ""] >>
        ELSE IF t = "nodescent" THEN << [k |-> "giveup", n |-> 0, dir |-> ""] >>
        ELSE IF t = "slopeerr" THEN << [k |-> "noway", n |-> 0, dir |-> ""] >> ELSE <<>>)
    \o Read(i + 1, IF Kind(p, t) = "" THEN d ELSE Kind(p, t))
Story == LET r == Read(1, "SD") IN
  IF r # <<>> /\ r[Len(r)].k \in {"conv", "giveup", "noway"} THEN r ELSE Append(r, [k |-> "budget", n |-> 0, dir |-> ""])
Facts == [i \in 1..Len(evs) |-> IF evs[i].k = "rec" THEN evs[i] ELSE [evs[i] EXCEPT !.n = 0]]
Told == pc = "end" => Story = Facts
Ends == <>(pc = "end")
=============================================================================
