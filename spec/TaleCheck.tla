----------------------------- MODULE TaleCheck -------------------------------
(* The text log of a real run against what happened in it.  log: tokens of   *)
(* the log (TaleRules) with at, the events whose values agree with the       *)
(* numbers in the text (<<-1>>: there are none to compare); ev: events of    *)
(* the run (rec with the kinds the next direction shows, eval); end: how the *)
(* run ended; head: lines of the header that do not show the arguments; con  *)
(* and conRef: console lines of the master and the lines of the log that     *)
(* belong there.                                                             *)
EXTENDS TaleRules, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES ti, i, j, d, bad
vars == <<ti, i, j, d, bad>>
T == Traces[ti]
V(w) == {<<"C31", w>>}
In(x, s) == \E q \in 1..Len(s) : s[q] = x
Tok(q) == IF q = 0 THEN "start" ELSE IF q <= Len(T.log) THEN T.log[q].k ELSE "end"

Init == ti \in 1..Len(Traces) /\ i = 0 /\ j = 0 /\ d = "SD"
  /\ bad = (IF T.head # <<>> THEN V("the header of the log does not show the arguments of the call") ELSE {})
      \cup (IF T.con # T.conRef THEN V("the console does not show the iterations and the result of the log") ELSE {})

Evals(n) == \A q \in 1..n : j + q <= Len(T.ev) /\ T.ev[j + q].k = "eval"
Wrong(p, t, e) ==
  LET c == Cost(p, t) IN
  (IF t \notin Next1(p) THEN V("the log is not the story of a run: " \o p \o " followed by " \o t) ELSE {})
  \cup (IF ~Evals(c) THEN V("the log accounts for evaluations that did not happen") ELSE {})
  \cup (IF t = "iter" /\ ~(j + 1 <= Len(T.ev) /\ T.ev[j + 1].k = "rec") THEN V("evaluations or iterations missing in the log") ELSE {})
  \cup (IF t = "iter" /\ j + 1 <= Len(T.ev) /\ Len(T.ev[j + 1].dirs) > 0 /\ ~In(d, T.ev[j + 1].dirs)
        THEN V("the log names another kind of direction than the one taken") ELSE {})
  \cup (IF e.at # <<-1>> /\ ~In(j + (IF t = "iter" THEN 1 ELSE c), e.at) THEN V("values in the log are not those of the run: " \o t) ELSE {})
  \cup (IF ~e.fit THEN V("steps in the log are not those of the run: " \o t) ELSE {})

Step(q) ==
  LET p == Tok(q - 1) t == Tok(q) e == T.log[q] IN
  /\ bad' = bad \cup Wrong(p, t, e)
  /\ j' = j + (IF t = "iter" THEN 1 ELSE Cost(p, t))
  /\ d' = (IF Kind(p, t) = "" THEN d ELSE Kind(p, t))
Next == /\ i < Len(T.log) /\ bad = {} /\ i' = i + 1 /\ ti' = ti /\ Step(i + 1)
Spec == Init /\ [][Next]_vars

Told == LET l == Tok(Len(T.log)) IN IF l = "success" THEN "conv" ELSE IF l \in {"nodescent", "slopeerr"} THEN "giveup" ELSE "budget"
AtEnd == IF i < Len(T.log) THEN {}
         ELSE (IF j # Len(T.ev) THEN V("evaluations or iterations missing in the log") ELSE {})
              \cup (IF "end" \notin Next1(Tok(Len(T.log))) THEN V("the log breaks off") ELSE {})
              \cup (IF Told # T.end THEN V("the log reports another end of the run") ELSE {})
Verdict == (i = Len(T.log) \/ bad # {}) =>
  LET all == IF bad # {} THEN bad ELSE AtEnd IN
  PrintT(<<"VERDICT", T.id, IF all = {} THEN "ok" ELSE "bad", all, i, IF i > 0 THEN 1 ELSE 0>>)
=============================================================================
