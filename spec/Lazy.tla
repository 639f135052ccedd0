-------------------------------- MODULE Lazy ---------------------------------
(* Implementation-level design of lazy maps over keyed collections: a stored *)
(* application binds its operands (for nested applications: the value        *)
(* obtained by calling them when the outer one is created) and is called at  *)
(* every force; a future is called once.  Checked against LazySpec for all   *)
(* programs of Depth commands: values, number of calls, no later change.     *)
(* BUG: "reference" operands are read again at each force; "share" a copy of *)
(* a collection shares its entries; "again" a future is called at each use;  *)
(* "eager" an application is called when created.                            *)
EXTENDS LazySpec, Json, TLC
CONSTANTS Depth, Dump, BUG
K1 == <<0, 0>>
K2 == <<1, 0>>
S1 == [c |-> "src", own |-> "world", v |-> << <<0, 0, 2>>, <<1, 0, 5>> >>]
S2 == [c |-> "src", own |-> "self", v |-> << <<0, 0, 11>>, <<1, 0, 3>>, <<2, 1, 7>> >>]
VARIABLES prog, S, I, calls, out
vars == <<prog, S, I, calls, out>>
\* implementation registers: kind, bound (operands per key), op, node, src operand registers, cache, done
IPlain(f) == [kind |-> "val", f |-> f, op |-> "none", node |-> 0, a |-> 0, b |-> 0, args |-> <<>>]
Init == /\ prog = <<S1, S2>>
        /\ S = Exec(Exec(<<>>, S1), S2)
        /\ I = << IPlain(Fn(RangeOf(S1.v))), IPlain(Fn(RangeOf(S2.v))) >>
        /\ calls = [n \in 1..(Depth + 2) |-> 0] /\ out = <<>>
Operand(r, k) == IF BUG = "reference" /\ r.kind # "val" /\ I[r.a].kind = "val"
                 THEN <<I[r.a].f[k], IF r.b = 0 THEN 0 ELSE IF I[r.b].kind = "val" THEN I[r.b].f[k] ELSE r.args[k][2]>>
                 ELSE r.args[k]
Eval(r, k) == IF r.kind = "val" THEN r.f[k] ELSE App(r.op, r.node, Operand(r, k)[1], Operand(r, k)[2])
Keys(r) == IF r.kind = "val" THEN DOMAIN r.f ELSE DOMAIN r.args
\* calls of the functions when register i is evaluated (per key)
Called(i) == LET r == I[i] IN IF r.kind = "lazy" \/ (BUG = "again" /\ r.kind = "fut") THEN {r.node} ELSE {}
Count(ns) == [n \in DOMAIN calls |-> calls[n] + IF n \in ns THEN 1 ELSE 0]
Do(c) ==
  /\ prog' = Append(prog, c) /\ S' = Exec(S, c)
  /\ CASE c.c \in Creates ->
          LET n == Len(I) + 1 D == Keys(I[c.a])
              r == [kind |-> IF c.c \in {"async", "async2"} THEN "fut" ELSE "lazy", f |-> <<>>, op |-> c.c, node |-> n,
                    a |-> c.a, b |-> IF c.c \in Binary THEN c.b ELSE 0,
                    args |-> [k \in D |-> <<Eval(I[c.a], k), IF c.c \in Binary THEN Eval(I[c.b], k) ELSE 0>>]]
          IN /\ I' = Append(I, r)
             /\ calls' = Count(Called(c.a) \cup (IF c.c \in Binary THEN Called(c.b) ELSE {})
                               \cup (IF r.kind = "fut" \/ BUG = "eager" THEN {n} ELSE {}))
             /\ out' = <<>>
       [] c.c \in {"force", "exec", "sum"} ->
          /\ out' = [k \in Keys(I[c.a]) |-> Eval(I[c.a], k)]
          /\ calls' = Count(Called(c.a))
          /\ I' = IF c.c = "force" THEN Append(I, IPlain([k \in Keys(I[c.a]) |-> Eval(I[c.a], k)])) ELSE I
       [] c.c = "dup" -> I' = Append(I, I[c.a]) /\ UNCHANGED calls /\ out' = <<>>
       [] c.c = "set" -> I' = [i \in 1..Len(I) |-> IF i # c.a /\ ~(BUG = "share" /\ I[i] = I[c.a]) THEN I[i] ELSE [I[i] EXCEPT !.f = [k \in DOMAIN @ \cup {<<c.k[1], c.k[2]>>} |-> IF k = <<c.k[1], c.k[2]>> THEN c.v ELSE @[k]]]]
                         /\ UNCHANGED calls /\ out' = <<>>
Cmds == { [c |-> o, a |-> i, b |-> j] : o \in Binary, i, j \in 1..Len(I) }
   \cup { [c |-> o, a |-> i, b |-> 0] : o \in {"map", "async", "force", "exec", "sum", "dup"}, i \in 1..Len(I) }
   \cup { [c |-> "set", a |-> i, b |-> 0, k |-> K1, v |-> 90] : i \in { i \in 1..Len(I) : I[i].kind = "val" } }
Next == Len(prog) < Depth + 2 /\ \E c \in Cmds : Defined(S, c) /\ Do(c)
Spec == Init /\ [][Next]_vars
\* every register evaluates to its meaning, whatever happened since
Values == \A i \in 1..Len(I) : Keys(I[i]) = DOMAIN S[i].val /\ \A k \in Keys(I[i]) : Eval(I[i], k) = S[i].val[k]
\* calls of register i's function: futures once; lazy ones once per direct evaluation or use as operand
Stores(r, i) == I[r].node = i
Uses(i) == Cardinality({ j \in 1..Len(prog) : (prog[j].c \in {"force", "exec", "sum", "map", "async"} /\ Stores(prog[j].a, i))
                                              \/ (prog[j].c \in Binary /\ (Stores(prog[j].a, i) \/ Stores(prog[j].b, i))) })
Calls == \A i \in { i \in 1..Len(I) : I[i].node \in {0, i} } : CASE I[i].kind = "fut" -> calls[i] = 1 [] I[i].kind = "lazy" -> calls[i] = Uses(i) [] OTHER -> calls[i] = 0
DumpInv == (Dump /\ Len(prog) = Depth + 2) => PrintT("CONFIG " \o ToJson([prog |-> prog]))
=============================================================================
