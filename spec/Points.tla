-------------------------------- MODULE Points --------------------------------
(* The decision on a proposal as a function of its terms, its votes and the    *)
(* block, independent of how it came about: what a query shows for an          *)
(* arbitrary proposal of the single- and the multiple-choice module.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
One == INSTANCE GovSingle
Many == INSTANCE GovMulti
Init(c) == [ok |-> TRUE, s |-> [single |-> c.single, st |-> "none", tl |-> One!G!None]]
Decide(s, e) == IF s.single THEN One!G!Cur([now |-> e.now], e.p) ELSE Many!G!Cur([now |-> e.now], e.p)
Apply(s, e) == LET d == Decide(s, e) IN Ok([s EXCEPT !.st = d.st, !.tl = d.tl])
Obs(s) == [st |-> s.st, tl |-> s.tl]
Inv(s) == [lock |-> (s.st = "timelock") = (s.tl.k # "none")]
=============================================================================
