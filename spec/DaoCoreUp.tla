------------------------------ MODULE DaoCoreUp -------------------------------
(* cw-core v1 migrated to dao-dao-core.                                        *)
EXTENDS DaoCore
\* v1 modules were all active; they get their letters in the order of their addresses
RECURSIVE Lettered(_, _)
Lettered(q, i) == IF i > Len(q) THEN EmptyF ELSE (q[i] :> [st |-> "enabled", prefix |-> Prefix(i)]) @@ Lettered(q, i + 1)
Import(e) ==
  LET d == e.dump
      x == [now |-> [h |-> d.h, t |-> d.t], nc |-> d.nc, admin |-> d.admin, nom |-> d.nom, paused |-> d.paused,
            items |-> PutSubs(EmptyF, d.items), subs |-> EmptyF, c20 |-> Range(d.c20), c721 |-> Range(d.c721),
            cfg |-> [name |-> d.cfg.name, desc |-> d.cfg.desc, image |-> d.cfg.image, c20 |-> d.cfg.c20, c721 |-> d.cfg.c721, uri |-> e.uri],
            mods |-> Lettered(Sorted(Range(d.mods)), 1), total |-> Len(d.mods), vm |-> d.vm, pows |-> d.pows,
            tb |-> [a \in {"contract0", "contract1", "contract2"} |-> "0"],
            bal |-> (DAO :> d.fund @@ "payee1" :> "0"), adm |-> (DAO :> "deployer") @@ d.adm, page |-> <<>>, fund |-> d.fund]
  IN IF e.by # "deployer" THEN Fail("migrate", 0) ELSE Ok(x)
MayUp(x, e) == e.by = x.adm[DAO]
U == INSTANCE Up WITH UImport <- Import, UMay <- MayUp, UApply <- Apply, UObs <- Obs, UInv <- Inv
=============================================================================
