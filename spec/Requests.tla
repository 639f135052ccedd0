------------------------------- MODULE Requests ------------------------------
(* What an entry point does with a request, decided from the request alone.  *)
(* The library's checks happen in some order (api, smearing, temperature,    *)
(* memory); whatever the order, the outcome of a request is the same and no  *)
(* candidate is evaluated for a request that will be refused.                *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Dump, BUG

Apis == {"us_cpu", "us_device_cpu", "us_device", "us_cpu_device", "mvp2_cpu", "mvp2_device", "mvp2_cpu_device",
         "mvp2_device_cpu"}
Smears == {-1, 0, 1, 2, 3, 4, 5}
Temps == {"pos", "zero", "neg", "nan"}
Mems == {"host", "device", "none"}
Checks == {"api", "smear", "temp", "mem"}

VARIABLES req, left, evals, out
vars == <<req, left, evals, out>>

Fails(c) == CASE c = "api"   -> req.api \notin {"us_cpu", "us_device_cpu"}
              [] c = "smear" -> req.smear \notin 0..4
              [] c = "temp"  -> req.temp # "pos"
              [] c = "mem"   -> req.mem # "host"
Refused == \E c \in Checks : Fails(c)

Init == /\ req \in [api : Apis, smear : Smears, temp : Temps, mem : Mems]
        /\ left = Checks /\ evals = 0 /\ out = "none"
Check(c) ==
  /\ out = "none" /\ c \in left
  /\ IF Fails(c) THEN out' = "refused" /\ left' = left ELSE out' = out /\ left' = left \ {c}
  /\ UNCHANGED <<req, evals>>
Run ==
  /\ out = "none" /\ (left = {} \/ (BUG = "lateCheck" /\ left = {"mem"}))
  /\ IF left = {} THEN out' = "run" /\ evals' = evals + 1 ELSE evals' = evals + 1 /\ out' = out
  /\ (BUG = "lateCheck") => evals < 2
  /\ UNCHANGED <<req, left>>
Next == Run \/ \E c \in Checks : Check(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Decided == out # "none" => (out = "refused" <=> Refused)
NoWorkBefore == out = "refused" => evals = 0
Ends == <>(out # "none")
DumpInv == (Dump /\ out = "none" /\ left = Checks) =>
  PrintT("CONFIG " \o ToJson([req |-> req, refused |-> Refused]))
=============================================================================
