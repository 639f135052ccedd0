------------------------------ MODULE LazySpec -------------------------------
(* Meaning of programs over keyed collections.  A register is a collection:  *)
(* kind "val" (plain values), "lazy" (stored applications, evaluated at each *)
(* force) or "fut" (applications evaluated once).  A register holds          *)
(*   val  : key -> value,   args : key -> <<x, y>> given to its function,    *)
(*   comm : "world" or "self".                                               *)
(* Operands are values: they are fixed when the application is created.      *)
EXTENDS Integers, Sequences, FiniteSets
RangeOf(s) == { s[i] : i \in 1..Len(s) }
Fn(pairs) == [k \in { <<p[1], p[2]>> : p \in pairs } |-> (CHOOSE p \in pairs : <<p[1], p[2]>> = k)[3]]
One(node, x) == 3 * x + node
Two(node, x, y) == 7 * x + 2 * y + node
Plain(f, c) == [kind |-> "val", val |-> f, args |-> << >>, comm |-> c, op |-> "none", a |-> 0, b |-> 0]
\* value of a register's application for key k, given the operands
App(op, node, x, y) == CASE op \in {"map", "async"} -> One(node, x)
                         [] op \in {"map2", "async2"} -> Two(node, x, y)
                         [] op = "mul" -> x * y
Binary == {"map2", "async2", "mul"}
Creates == {"map", "map2", "async", "async2", "mul"}
\* a binary application needs every key of its first operand in the second
Defined(R, c) == c.c \in Binary => DOMAIN R[c.a].val \subseteq DOMAIN R[c.b].val
New(R, c) ==
  LET n == Len(R) + 1  D == DOMAIN R[c.a].val
      y(k) == IF c.c \in Binary THEN R[c.b].val[k] ELSE 0
  IN [kind |-> IF c.c \in {"async", "async2"} THEN "fut" ELSE "lazy",
      args |-> [k \in D |-> <<R[c.a].val[k], y(k)>>],
      val |-> [k \in D |-> App(c.c, n, R[c.a].val[k], y(k))],
      comm |-> R[c.a].comm, op |-> c.c, a |-> c.a, b |-> IF c.c \in Binary THEN c.b ELSE 0]
\* registers after a command
Exec(R, c) ==
  CASE c.c = "src" -> Append(R, Plain(Fn(RangeOf(c.v)), c.own))
    [] c.c \in Creates -> Append(R, New(R, c))
    [] c.c = "force" -> Append(R, Plain(R[c.a].val, "self"))
    [] c.c = "dup" -> Append(R, R[c.a])
    [] c.c = "set" -> [R EXCEPT ![c.a].val = [k \in DOMAIN @ \cup {<<c.k[1], c.k[2]>>} |-> IF k = <<c.k[1], c.k[2]>> THEN c.v ELSE @[k]]]
    [] OTHER -> R
=============================================================================
