----------------------------- MODULE HostMemory ------------------------------
(* Where the host keeps its data.  The interface hands out descriptions of   *)
(* memory of the host (coefficients C, gradients H, occupations F, band      *)
(* energies E).  A host may keep them in other memory after an evaluation;   *)
(* what was handed out before is then gone.  The library is modelled by its  *)
(* references: fetched at some generation of the buffer, as a view or copied.*)
(* Checked for every host (which buffers move, after which evaluations) and  *)
(* every course of the line searches: no reference to memory that is gone is *)
(* read or written, and what is evaluated is what was meant.                 *)
(* BUG: keepC  - the coefficients are written through the first description  *)
(*      viewH  - the gradient is not copied: the directions of a later trial *)
(*      keepF  - occupations are read through a description fetched before   *)
(*               the evaluation                                              *)
(*      viewX  - the base point of a line search is a view of the host's C   *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Trials, Iters, Dump, BUG

Bufs == {"C", "H", "F", "E"}
Whens == {"all", "first", "later", "even"}
VARIABLES mv, when, nev, gen, held, pc, it, tr, bad, val, base
vars == <<mv, when, nev, gen, held, pc, it, tr, bad, val, base>>

Init ==
  /\ mv \in SUBSET Bufs /\ when \in Whens
  /\ nev = 0 /\ gen = [b \in Bufs |-> 0] /\ pc = "start" /\ it = 0 /\ tr = 0 /\ bad = FALSE
  \* generation of the descriptions the library keeps; -1: none
  /\ held = [C |-> -1, F |-> -1, X |-> -1, H |-> -1]
  /\ val = 0 /\ base = 0        \* which point C holds; which point the search starts from

Moves(n) == CASE when = "all" -> TRUE [] when = "first" -> n = 1 [] when = "later" -> n > 2 [] OTHER -> n % 2 = 0
Evaluate == /\ nev' = nev + 1
            /\ gen' = [b \in Bufs |-> IF b \in mv /\ Moves(nev + 1) THEN gen[b] + 1 ELSE gen[b]]
Stale(b, g) == g # -1 /\ g # gen[b]

Start == /\ pc = "start" /\ Evaluate /\ pc' = "restate" /\ UNCHANGED <<mv, when, held, it, tr, bad, val, base>>
\* first evaluation with occupations of the library: C is written with itself
Restate ==
  /\ pc = "restate"
  /\ held' = [held EXCEPT !.C = gen["C"], !.F = gen["F"]]
  /\ Evaluate /\ pc' = "point" /\ UNCHANGED <<mv, when, it, tr, bad, val, base>>
\* accepted point: fetch gradient and coefficients
Point ==
  /\ pc = "point"
  /\ held' = [held EXCEPT !.X = gen["C"], !.H = gen["H"]]
  /\ bad' = (bad \/ (BUG = "keepF" /\ Stale("F", held.F)))
  /\ base' = val /\ tr' = 0
  /\ pc' = IF it = Iters THEN "end" ELSE "trial"
  /\ UNCHANGED <<mv, when, nev, gen, it, val>>
\* a trial: geodesic from the base point along the direction, written to the host
Trial ==
  /\ pc = "trial" /\ tr < Trials
  /\ bad' = (bad \/ (BUG = "viewX" /\ (Stale("C", held.X) \/ val # base))
                 \/ (BUG = "viewH" /\ Stale("H", held.H))
                 \/ (BUG = "keepC" /\ Stale("C", held.C)))
  /\ held' = [held EXCEPT !.F = gen["F"]]
  /\ val' = 1000 * (it + 1) + tr + 1
  /\ Evaluate /\ tr' = tr + 1
  /\ pc' \in {"trial", "accept"}
  /\ UNCHANGED <<mv, when, it, base>>
Accept == /\ pc = "accept" /\ it' = it + 1 /\ pc' = "point" /\ UNCHANGED <<mv, when, nev, gen, held, tr, bad, val, base>>
\* no trial is better: back to the base point
GiveUp == /\ pc = "trial" /\ tr = Trials /\ pc' = "end" /\ UNCHANGED <<mv, when, nev, gen, held, it, tr, bad, val, base>>
Next == Start \/ Restate \/ Point \/ Trial \/ Accept \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sound == ~bad
Ends == <>(pc = "end")
DumpInv == (Dump /\ pc = "start" /\ mv # {}) => PrintT("CONFIG " \o ToJson([mv |-> mv, when |-> when]))
=============================================================================
