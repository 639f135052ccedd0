------------------------------- MODULE Gather --------------------------------
(* Gather of a keyed collection: every rank owns some keys, each with a      *)
(* vector of its own length (possibly empty).  Ranks learn the block sizes,  *)
(* write their blocks at the agreed offsets of a common buffer, in any order *)
(* and interleaving, and unpack.  Checked: every rank ends with exactly the  *)
(* union, each block intact.  BUG variants compute offsets wrongly.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Json, TLC
CONSTANTS NR, NK, MaxLen, Dump, BUG

R == 0..(NR - 1)
K == 1..NK
VARIABLES owner, len, buf, packed, res, pc
vars == <<owner, len, buf, packed, res, pc>>

RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN len[k] + SumLen(S \ {k})
Keys(r) == { k \in K : owner[k] = r }
\* blocks are ordered by rank, then key
Before(k) == { j \in K : owner[j] < owner[k] \/ (owner[j] = owner[k] /\ j < k) }
Offset(k) == CASE BUG = "byBlocks" -> Cardinality(Before(k))
               [] BUG = "sameLen" -> len[k] * Cardinality(Before(k))
               [] BUG = "localScan" -> SumLen({ j \in Before(k) : owner[j] = owner[k] })
               [] OTHER -> SumLen(Before(k))
Total == SumLen(K)

Init == /\ owner \in [K -> R] /\ len \in [K -> 0..MaxLen]
        /\ buf = [i \in 1..(NK * MaxLen) |-> <<0, 0>>] /\ packed = {} /\ res = [r \in R |-> {}] /\ pc = "go"
Pack(r) ==
  /\ r \notin packed
  /\ packed' = packed \cup {r}
  /\ buf' = [i \in 1..(NK * MaxLen) |->
       LET H == { k \in Keys(r) : i > Offset(k) /\ i <= Offset(k) + len[k] } IN
       IF H = {} THEN buf[i] ELSE LET k == CHOOSE x \in H : TRUE IN <<k, i - Offset(k)>>]
  /\ UNCHANGED <<owner, len, res, pc>>
Unpack(r) ==
  /\ packed = R /\ res[r] = {} /\ pc = "go"
  /\ res' = [res EXCEPT ![r] = { <<k, [i \in 1..len[k] |-> buf[Offset(k) + i]]>> : k \in K }]
  /\ pc' = IF \A q \in R \ {r} : res[q] # {} THEN "done" ELSE "go"
  /\ UNCHANGED <<owner, len, buf, packed>>
Next == \E r \in R : Pack(r) \/ Unpack(r)
Spec == Init /\ [][Next]_vars

Union == { <<k, [i \in 1..len[k] |-> <<k, i>>]>> : k \in K }
Complete == pc = "done" => \A r \in R : res[r] = Union
NoOverlap == \A i \in 1..(NK * MaxLen) : Cardinality({ k \in K : i > Offset(k) /\ i <= Offset(k) + len[k] }) <= 1
DumpInv == (Dump /\ pc = "done") => PrintT("CONFIG " \o ToJson([owner |-> owner, len |-> len]))
=============================================================================
