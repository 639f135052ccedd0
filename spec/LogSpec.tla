------------------------------- MODULE LogSpec -------------------------------
(* The text log: at most one attached file, a stack of prefixes put before   *)
(* every item, and the console (master rank only, while attached or for      *)
(* messages sent there explicitly).  Do is the effect of one command; the    *)
(* state holds the contents of all files and of the console of one rank.     *)
EXTENDS Integers, Sequences, TLC
Fresh == [files |-> [f \in {} |-> ""], cur |-> "", con |-> "", detached |-> FALSE, pre |-> <<>>]
RECURSIVE Pre(_)
Pre(p) == IF p = <<>> THEN "" ELSE Head(p) \o "::" \o Pre(Tail(p))
Item(s, txt) == Pre(s.pre) \o txt
RECURSIVE Items(_, _)
Items(s, ts) == IF ts = <<>> THEN "" ELSE Item(s, Head(ts)) \o Items(s, Tail(ts))
Write(s, rank, ts, force) ==
  LET t == Items(s, ts)
      f == IF s.cur = "" THEN s.files ELSE [s.files EXCEPT ![s.cur] = @ \o t]
      c == IF rank = 0 /\ (force \/ ~s.detached) THEN s.con \o t ELSE s.con
  IN [s EXCEPT !.files = f, !.con = c]
Open(s, fn) == [s EXCEPT !.files = [f \in {fn} |-> ""] @@ s.files, !.cur = fn]
\* cmd: sequence of strings; numbers are given as text too
Do(s, rank, c) ==
  CASE c[1] = "file" -> Open(s, c[2] \o ToString(rank) \o c[3])
    [] c[1] = "master" -> IF rank = 0 THEN Open(s, c[2]) ELSE s
    [] c[1] = "out" -> Write(s, rank, <<c[2]>>, FALSE)
    [] c[1] = "out2" -> Write(s, rank, <<c[2], c[3], "\n">>, FALSE)
    [] c[1] = "cout" -> Write(s, rank, <<c[2]>>, TRUE)
    [] c[1] = "cout2" -> Write(s, rank, <<c[2], c[3], "\n">>, TRUE)
    [] c[1] = "push" -> [s EXCEPT !.pre = Append(@, c[2])]
    [] c[1] = "pop" -> [s EXCEPT !.pre = SubSeq(@, 1, Len(@) - 1)]
    [] c[1] = "clear" -> [s EXCEPT !.pre = <<>>]
    [] c[1] = "detach" -> [s EXCEPT !.detached = TRUE]
    [] c[1] = "attach" -> [s EXCEPT !.detached = FALSE]
    [] c[1] = "flush" -> s
=============================================================================
