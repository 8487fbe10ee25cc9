--------------------------------- MODULE Kit ---------------------------------
(* Small vocabulary shared by the subsystem specifications.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt
Ok(x) == [ok |-> "y", s |-> x, why |-> ""]
Fail(w, x) == [ok |-> "n", s |-> x, why |-> w]
\* the specification leaves success open; x is the state if the code succeeds
Maybe(w, x) == [ok |-> "any", s |-> x, why |-> w]

Range(q) == { q[i] : i \in DOMAIN q }
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
\* function update that may extend the domain
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyF == [x \in {} |-> 0]

RECURSIVE BSumSet(_, _)
BSumSet(f, S) == IF S = {} THEN "0"
                 ELSE LET x == CHOOSE x \in S : TRUE IN BAdd(f[x], BSumSet(f, S \ {x}))
BSumF(f) == BSumSet(f, DOMAIN f)
RECURSIVE BSumSeq(_)
BSumSeq(q) == IF q = <<>> THEN "0" ELSE BAdd(Head(q), BSumSeq(Tail(q)))
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
RECURSIVE FilterQ(_, _)
\* keep the elements of q that are in S
FilterQ(q, S) == IF q = <<>> THEN <<>>
                 ELSE IF Head(q) \in S THEN <<Head(q)>> \o FilterQ(Tail(q), S) ELSE FilterQ(Tail(q), S)
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
RECURSIVE Sorted(_)
\* the strings in S in ascending order
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : SLt(x, y) IN <<x>> \o Sorted(S \ {x})
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Take(q, n) == SubSeq(q, 1, MinI(n, Len(q)))
=============================================================================
