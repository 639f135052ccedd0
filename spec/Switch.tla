------------------------------- MODULE Switch --------------------------------
(* How the chemical potential is found, as a function of the setting of      *)
(* NLCGLIB_DISABLE_NEWTON_EFERMI and of the smearing.  Search: step doubling *)
(* for the exact balance (finds it or not).  Newton: minimisation of the     *)
(* squared deviation from the potential of Gauss smearing; ends at a balance *)
(* ("root"), at a stationary count within ("near") or outside ("far") the    *)
(* documented tolerance, or in a flat region ("flat"); "far" and "flat" fall *)
(* back to the search.  Checked: with the switch on, every result is an      *)
(* exact balance; off, it is one or near; an error only if the search was    *)
(* used and found nothing; the monotone smearings do not depend on it.       *)
(* BUG: "inverted", "any" (every value that is set counts, also 0), "first"  *)
(* (only the value 1 counts), "nofall" (far is returned), "all" (monotone    *)
(* smearings use Newton as well).                                            *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Dump, BUG
Settings == {"unset", "zero", "one", "empty", "word", "double"}
Outcomes == {"root", "near", "far", "flat"}
VARIABLES setting, mono, newton, search, pc, res, via
vars == <<setting, mono, newton, search, pc, res, via>>
Off == setting \in {"unset", "zero"}
SeenOff == CASE BUG = "inverted" -> ~Off
             [] BUG = "any" -> setting = "unset"
             [] BUG = "first" -> setting # "one"
             [] OTHER -> Off
Init == /\ setting \in Settings /\ mono \in BOOLEAN /\ newton \in Outcomes /\ search \in BOOLEAN
        /\ pc = "start" /\ res = "none" /\ via = "none"
Start == /\ pc = "start" /\ pc' = (IF SeenOff /\ (~mono \/ BUG = "all") THEN "newton" ELSE "search")
         /\ UNCHANGED <<setting, mono, newton, search, res, via>>
Newton == /\ pc = "newton" /\ via' = "newton"
          /\ IF newton \in {"root", "near"} \/ (BUG = "nofall" /\ newton = "far")
             THEN pc' = "done" /\ res' = (IF newton = "root" THEN "exact" ELSE newton)
             ELSE pc' = "search" /\ res' = res
          /\ UNCHANGED <<setting, mono, newton, search>>
Search == /\ pc = "search" /\ pc' = "done" /\ via' = "search"
          /\ res' = IF search THEN "exact" ELSE "error"
          /\ UNCHANGED <<setting, mono, newton, search>>
Next == Start \/ Newton \/ Search
Spec == Init /\ [][Next]_vars
OnIsExact == (pc = "done" /\ ~Off) => res \in {"exact", "error"}
OffIsNear == (pc = "done" /\ Off) => res \in {"exact", "near", "error"} /\ ((~mono /\ newton \in {"root", "near"}) => via = "newton")
ErrorOnlyIfNone == (pc = "done" /\ res = "error") => ~search /\ via = "search"
MonotoneUnaffected == (pc = "done" /\ mono) => via = "search"
DumpInv == (Dump /\ pc = "done") => PrintT("CONFIG " \o ToJson([setting |-> setting, mono |-> mono]))
=============================================================================
