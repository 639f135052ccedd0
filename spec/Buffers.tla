------------------------------- MODULE Buffers -------------------------------
(* Host memory described by (offset, s0, s1): element (i,j) of an M x N      *)
(* matrix lives at off + i*s0 + j*s1.  The library overwrites the described  *)
(* elements with a new matrix, in any order, and reads them back.            *)
(* Checked for every injective description within the bounds: only described *)
(* words change, no element overwrites another, what is read back is what    *)
(* was written.  The descriptions are dumped and run on the real library.    *)
(* Valid descriptions are the nested ones (columns, or rows, do not          *)
(* interleave); the views of the linear-algebra layer cannot express others. *)
EXTENDS Integers, FiniteSets, Sequences, Json, TLC
CONSTANTS M, N, S0MAX, S1MAX, Dump, BUG

Off == 2
Idx == (0..M-1) \X (0..N-1)
VARIABLES s0, s1, mem, todo, pc
vars == <<s0, s1, mem, todo, pc>>

Addr(a, b, ij) == Off + ij[1] * a + ij[2] * b
Size(a, b) == Off + (M - 1) * a + (N - 1) * b + 3
Nested(a, b) == a * (M - 1) < b \/ b * (N - 1) < a
Inj(a, b) == \A p, q \in Idx : p # q => Addr(a, b, p) # Addr(a, b, q)
\* where the (possibly wrong) library believes the element to be
Lib(a, b, ij) == CASE BUG = "dense"   -> Off + ij[1] + ij[2] * M       \* ignores the strides
                   [] BUG = "swap"    -> Off + ij[1] * b + ij[2] * a
                   [] BUG = "ld"      -> Off + ij[1] + ij[2] * b       \* assumes unit stride in a column
                   [] OTHER           -> Addr(a, b, ij)

Old(ij) == <<"old", ij>>
New(ij) == <<"new", ij>>
Pad == <<"pad", <<0, 0>>>>

Init ==
  /\ s0 \in 1..S0MAX /\ s1 \in 1..S1MAX /\ Nested(s0, s1)
  /\ mem = [a \in 0..Size(s0, s1) |-> IF \E ij \in Idx : Addr(s0, s1, ij) = a
                                      THEN Old(CHOOSE ij \in Idx : Addr(s0, s1, ij) = a) ELSE Pad]
  /\ todo = Idx /\ pc = "write"

Write ==
  /\ pc = "write"
  /\ IF todo = {} THEN pc' = "read" /\ UNCHANGED <<mem, todo>>
     ELSE \E ij \in todo :
            /\ mem' = [a \in DOMAIN mem |-> IF a = Lib(s0, s1, ij) THEN New(ij) ELSE mem[a]]
            /\ todo' = todo \ {ij} /\ pc' = pc
  /\ UNCHANGED <<s0, s1>>
Next == Write
Spec == Init /\ [][Next]_vars

Described == {Addr(s0, s1, ij) : ij \in Idx}
PaddingIntact == \A a \in DOMAIN mem : a \notin Described => mem[a] = Pad
Injective == Inj(s0, s1)     \* nested descriptions never map two elements to one word
ReadBack == pc = "read" => \A ij \in Idx : mem[Addr(s0, s1, ij)] = New(ij)
DumpInv == (Dump /\ pc = "read") => PrintT("CONFIG " \o ToJson([m |-> M, n |-> N, s0 |-> s0, s1 |-> s1]))
=============================================================================
