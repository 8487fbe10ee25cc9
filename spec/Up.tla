---------------------------------- MODULE Up ----------------------------------
(* An upgrade in front of a specification: a contract first lives on an older  *)
(* code version, whose history is not modelled; the `import' step hands over   *)
(* its contents as they were read from it (dump) and migrates.  From there on  *)
(* the contract must behave like the present specification in that state, and  *)
(* cannot be upgraded from the old version again; a migration between          *)
(* compatible versions (again, k = "compat") changes nothing.                  *)
(*   UImport(e)   [ok, s, why]: may this migration be made, and the state      *)
(*                the migrated contract is in                                  *)
(*   UMay(x, e)   may this compatible migration be made                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Kit
CONSTANTS UImport(_), UMay(_, _), UApply(_, _), UObs(_), UInv(_)
Old == [phase |-> "old"]
New(x) == [phase |-> "new", x |-> x]
UpInit(c) == [ok |-> TRUE, s |-> Old]
UpApply(u, e) ==
  IF u.phase = "old"
  THEN IF e.o = "past" THEN Ok(Old) ELSE LET r == UImport(e) IN [ok |-> r.ok, s |-> IF r.ok = "n" THEN Old ELSE New(r.s), why |-> IF r.ok = "n" THEN r.why ELSE ""]
  ELSE IF e.o = "again" THEN IF e.k = "compat" /\ UMay(u.x, e) THEN Ok(u) ELSE Fail("migrated", u)
  ELSE LET r == UApply(u.x, e) IN [r EXCEPT !.s = New(@)]
UpObs(u) == IF u.phase = "old" THEN u ELSE UObs(u.x) @@ [phase |-> "new"]
UpInv(u) == IF u.phase = "old" THEN [fresh |-> TRUE] ELSE UInv(u.x)
=============================================================================
