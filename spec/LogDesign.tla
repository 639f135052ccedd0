------------------------------ MODULE LogDesign ------------------------------
(* All command sequences up to Depth on every rank of NR; properties of the  *)
(* log; complete sequences are dumped and run on the real logger.            *)
EXTENDS LogSpec, FiniteSets, Json
CONSTANTS NR, Depth, Dump, BUG
VARIABLES st, hist
vars == <<st, hist>>
R == 0..(NR - 1)
T(n) == "m" \o ToString(n) \o "."
Cmds == { <<"file", "a", ".log">>, <<"master", "b.out">>, <<"out", T(Len(hist))>>, <<"out2", T(Len(hist)), ToString(Len(hist))>>,
          <<"cout", T(Len(hist))>>, <<"cout2", T(Len(hist)), "7">>, <<"push", "P">>, <<"push", "Q">>, <<"pop">>, <<"clear">>,
          <<"detach">>, <<"attach">>, <<"flush">> }
\* on other ranks, the master file does not replace a file of their own (documented: only master rank writes)
Ok(c) == /\ (c[1] = "pop" => Len(st[0].pre) > 0)
         /\ (c[1] = "master" => \A r \in R : r = 0 \/ st[r].cur = "")
DoB(s, r, c) == IF BUG = "stick" /\ c[1] = "cout" THEN [Do(s, r, c) EXCEPT !.detached = FALSE]
                ELSE IF BUG = "allRanks" /\ c[1] = "master" THEN Open(s, c[2])
                ELSE IF BUG = "append" /\ c[1] \in {"file", "master"} THEN
                       LET o == Do(s, r, c) IN IF o.cur \in DOMAIN s.files THEN [o EXCEPT !.files[o.cur] = s.files[o.cur]] ELSE o
                ELSE Do(s, r, c)
Init == st = [r \in R |-> Fresh] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in Cmds : Ok(c) /\ hist' = Append(hist, c) /\ st' = [r \in R |-> DoB(st[r], r, c)]
Spec == Init /\ [][Next]_vars

\* only the master writes to the console and to the master file
ConsoleMaster == \A r \in R : r > 0 => st[r].con = "" /\ "b.out" \notin DOMAIN st[r].files
\* a command writes to at most one file, and a file that is not attached never changes again until reopened
OthersUntouched == [][\A r \in R : \A f \in DOMAIN st[r].files : (f # st[r].cur /\ f # st'[r].cur) => st'[r].files[f] = st[r].files[f]]_vars
\* opening starts an empty file
OpensEmpty == [][\A r \in R : (Len(hist') > 0 /\ hist'[Len(hist')][1] \in {"file", "master"} /\ st'[r].cur # "" /\ (r = 0 \/ hist'[Len(hist')][1] = "file"))
                   => st'[r].files[st'[r].cur] = ""]_vars
\* explicit console messages do not attach the console
DetachedStays == [][\A r \in R : (st[r].detached /\ hist'[Len(hist')][1] # "attach") => st'[r].detached]_vars
DumpInv == (Dump /\ Len(hist) = Depth) => PrintT("CONFIG " \o ToJson([cmds |-> hist]))
=============================================================================
