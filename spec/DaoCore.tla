------------------------------- MODULE DaoCore -------------------------------
(* contracts/dao-dao-core: who may make the DAO act, pause, admin, modules,     *)
(* registries, listings.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
DAO == "contract5"
IsC20(a) == a \in {"contract0", "contract1", "contract2"}
IsC721(a) == a \in {"contract3", "contract4"}
None == [k |-> "none", v |-> 0]
Expired(now, e) == IF e.k = "h" THEN now.h >= e.v ELSE IF e.k = "t" THEN now.t >= e.v ELSE FALSE
After(now, d) == IF d.k = "h" THEN [k |-> "h", v |-> now.h + d.v] ELSE [k |-> "t", v |-> now.t + d.v]
Paused(s) == s.paused.k # "none" /\ ~Expired(s.now, s.paused)

\* A, B, ..., Z, AA, AB, ...
Letters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
RECURSIVE Prefix(_)
Prefix(n) == IF n <= 26 THEN Letters[n] ELSE Prefix((n - 1) \div 26) \o Letters[((n - 1) % 26) + 1]

Enabled(s) == { a \in DOMAIN s.mods : s.mods[a].st = "enabled" }
May(s, by) == ~Paused(s) \/ by \in {DAO, s.admin}

------------------------------------------------------------------------------
Send(s, to, a) == IF a = "0" THEN Ok(s)
                  ELSE IF BLt(s.bal[DAO], a) THEN Fail("funds", s)
                  ELSE Ok([s EXCEPT !.bal = Put([@ EXCEPT ![DAO] = BSub(@, a)], to, BAdd(Get(s.bal, to, "0"), IF to = DAO THEN "0" ELSE a))])
RECURSIVE Call(_, _, _)
RECURSIVE Run(_, _)
RECURSIVE AddMods(_, _)
\* the DAO instantiates a contract with funds of its own
New(s, m) == LET a == "contract" \o ToString(s.nc)
                 r == Send([s EXCEPT !.nc = @ + 1, !.adm = Put(@, a, IF m.adm = "core" THEN DAO ELSE m.adm), !.pows = Put(@, a, m.powers)], a, m.fund)
             IN IF r.ok = "n" \/ m.fail THEN Fail("module", s) ELSE r
Last(s) == "contract" \o ToString(s.nc - 1)
\* what a new module asked for is done by the DAO
Callback(s, m) == IF Same(m.cb, "junk") THEN Ok(s) ELSE Run(s, m.cb)
\* effects of messages sent in the DAO's name, in order, all or none
Run(s, q) ==
  IF q = <<>> THEN Ok(s)
  ELSE LET m == Head(q)
           r == CASE m.k = "pay" -> Send(s, m.to, m.a)
                  [] m.k = "self" -> Call(s, DAO, m.m)
                  [] OTHER -> Fail("message", s)
       IN IF r.ok = "n" THEN Fail("message", s) ELSE Run(r.s, Tail(q))
AddMods(s, q) ==
  IF q = <<>> THEN Ok(s)
  ELSE LET r == New(s, Head(q))
           s1 == [r.s EXCEPT !.mods = Put(@, Last(r.s), [st |-> "enabled", prefix |-> Prefix(r.s.total + 1)]), !.total = @ + 1]
           r1 == Callback(s1, Head(q))
       IN IF r.ok = "n" THEN r ELSE IF r1.ok = "n" THEN Fail("callback", s) ELSE AddMods(r1.s, Tail(q))
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
UpdateMods(s, add, dis) ==
  IF \E i \in DOMAIN dis : dis[i] \notin Enabled(s) THEN Fail("nomodule", s)
  ELSE IF ~Distinct(dis) THEN Fail("disabled", s)
  ELSE IF add = <<>> /\ Enabled(s) \subseteq Range(dis) THEN Fail("nonelive", s)
  ELSE LET r == AddMods([s EXCEPT !.mods = [a \in DOMAIN @ |-> IF a \in Range(dis) THEN [@[a] EXCEPT !.st = "disabled"] ELSE @[a]]], add)
       IN IF r.ok = "n" THEN Fail(r.why, s) ELSE r
RECURSIVE PutSubs(_, _)
PutSubs(f, q) == IF q = <<>> THEN f ELSE PutSubs(Put(f, Head(q)[1], Head(q)[2]), Tail(q))

Own(s, m) ==   \* only by the DAO itself
  CASE m.k = "pause" -> Ok([s EXCEPT !.paused = After(s.now, m.dur)])
    [] m.k = "set_item" -> Ok([s EXCEPT !.items = Put(@, m.key, m.val)])
    [] m.k = "rm_item" -> IF Has(s.items, m.key) THEN Ok([s EXCEPT !.items = Del(@, m.key)]) ELSE Fail("noitem", s)
    [] m.k = "cfg" -> Ok([s EXCEPT !.cfg = m.c])
    \* lists: additions first, then removals; what is added must answer as such a token
    [] m.k = "c20" -> IF \E i \in DOMAIN m.add : ~IsC20(m.add[i]) THEN Fail("notoken", s)
                      ELSE Ok([s EXCEPT !.c20 = (@ \cup Range(m.add)) \ Range(m.rm)])
    [] m.k = "c721" -> IF \E i \in DOMAIN m.add : ~IsC721(m.add[i]) THEN Fail("notoken", s)
                       ELSE Ok([s EXCEPT !.c721 = (@ \cup Range(m.add)) \ Range(m.rm)])
    \* sub-DAOs: removals first, then additions
    [] m.k = "subs" -> Ok([s EXCEPT !.subs = PutSubs([a \in DOMAIN @ \ Range(m.rm) |-> @[a]], m.add)])
    [] m.k = "vm" -> LET r == New(s, m.mod) IN IF r.ok = "n" THEN r ELSE Ok([r.s EXCEPT !.vm = Last(r.s)])
    [] m.k = "pm" -> UpdateMods(s, m.add, m.dis)
OwnKinds == {"pause", "set_item", "rm_item", "cfg", "c20", "c721", "subs", "vm", "pm"}

Call(s, by, m) ==
  IF ~May(s, by) THEN Fail("paused", s)
  ELSE IF m.k \in OwnKinds THEN (IF by # DAO THEN Fail("unauthorized", s) ELSE Own(s, m))
  ELSE CASE m.k = "hook" -> IF by \notin Enabled(s) THEN Fail("unauthorized", s)
                            ELSE LET r == Run(s, m.msgs) IN IF r.ok = "n" THEN Fail("message", s) ELSE r
         [] m.k = "admin" -> IF by # s.admin THEN Fail("unauthorized", s)
                             ELSE LET r == Run(s, m.msgs) IN IF r.ok = "n" THEN Fail("message", s) ELSE r
         [] m.k = "unpause" -> IF by # s.admin THEN Fail("unauthorized", s) ELSE Ok([s EXCEPT !.paused = None])
         [] m.k = "nominate" -> IF by # s.admin THEN Fail("unauthorized", s)
                                ELSE IF s.nom # "" THEN Fail("pending", s)
                                ELSE IF m.who = "" THEN Ok([s EXCEPT !.admin = DAO]) ELSE Ok([s EXCEPT !.nom = m.who])
         [] m.k = "accept" -> IF s.nom = "" \/ by # s.nom THEN Fail("unauthorized", s) ELSE Ok([s EXCEPT !.admin = s.nom, !.nom = ""])
         [] m.k = "withdraw" -> IF by # s.admin THEN Fail("unauthorized", s)
                                ELSE IF s.nom = "" THEN Fail("nonomination", s) ELSE Ok([s EXCEPT !.nom = ""])
         \* a token announces a transfer to the DAO
         [] m.k = "receive" -> Ok(IF s.cfg.c20 THEN [s EXCEPT !.c20 = @ \cup {by}] ELSE s)
         [] m.k = "receive_nft" -> Ok(IF s.cfg.c721 THEN [s EXCEPT !.c721 = @ \cup {by}] ELSE s)

------------------------------------------------------------------------------
Init(c) ==
  LET s0 == [now |-> [h |-> 0, t |-> 0], nc |-> 6, admin |-> IF c.admin = "" THEN DAO ELSE c.admin, nom |-> "",
             paused |-> None, items |-> PutSubs(EmptyF, c.items), subs |-> EmptyF, c20 |-> {}, c721 |-> {}, cfg |-> c.cfg,
             mods |-> EmptyF, total |-> 0, vm |-> "", pows |-> EmptyF,
             tb |-> [a \in {"contract0", "contract1", "contract2"} |-> "0"],
             bal |-> (DAO :> c.fund @@ "payee1" :> "0"), adm |-> (DAO :> "deployer"), page |-> <<>>, fund |-> c.fund]
      v == New(s0, c.vm)
      s1 == [v.s EXCEPT !.vm = Last(v.s)]
      v1 == Callback(s1, c.vm)
      r == AddMods(v1.s, c.mods)
      bad == \/ Len(c.mods) = 0
             \/ ~Distinct([i \in DOMAIN c.items |-> c.items[i][1]])
  IN IF bad \/ v.ok = "n" \/ v1.ok = "n" \/ r.ok = "n" THEN [ok |-> FALSE, s |-> s0] ELSE [ok |-> TRUE, s |-> r.s]

\* listings
DescKeys(S) == Rev(Sorted(S))
List(s, l) ==
  CASE l = "items" -> LET q == DescKeys(DOMAIN s.items) IN [i \in DOMAIN q |-> <<q[i], s.items[q[i]]>>]
    [] l = "subs" -> LET q == Sorted(DOMAIN s.subs) IN [i \in DOMAIN q |-> <<q[i], s.subs[q[i]]>>]
    [] l = "c20" -> DescKeys(s.c20)
    [] l = "c721" -> DescKeys(s.c721)
    [] l = "bals" -> LET q == DescKeys(s.c20) IN [i \in DOMAIN q |-> <<q[i], Get(s.tb, q[i], "error")>>]
    [] l = "mods" -> LET q == Sorted(DOMAIN s.mods) IN [i \in DOMAIN q |-> <<q[i], s.mods[q[i]].st, s.mods[q[i]].prefix>>]
    [] l = "act" -> LET q == Sorted(Enabled(s)) IN [i \in DOMAIN q |-> <<q[i], s.mods[q[i]].st, s.mods[q[i]].prefix>>]
Desc(l) == l \in {"items", "c20", "c721", "bals"}
KeyOf(l, row) == IF l \in {"c20", "c721"} THEN row ELSE row[1]
Beyond(l, row, after) == IF Desc(l) THEN SLt(KeyOf(l, row), after) ELSE SLt(after, KeyOf(l, row))
\* a listing of balances fails if one of the addresses asked does not answer
Shown(l, q) == IF l = "bals" /\ \E i \in DOMAIN q : q[i][2] = "error" THEN <<"error">> ELSE q
Page(s, e) ==
  LET q == SelectSeq(List(s, e.l), LAMBDA row : e.first \/ Beyond(e.l, row, e.after))
  IN Shown(e.l, IF e.n < 0 THEN q ELSE Take(q, e.n))

Apply(s, e) ==
  CASE e.o = "call" -> Call(s, e.by, e.m)
    [] e.o = "send20" -> LET r == Call([s EXCEPT !.tb[e.tok] = BAdd(@, e.a)], e.tok, [k |-> "receive"]) IN IF r.ok = "n" THEN Fail(r.why, s) ELSE r
    [] e.o = "xfer20" -> Ok([s EXCEPT !.tb[e.tok] = BAdd(@, e.a)])
    [] e.o = "sendnft" -> Call(s, e.tok, [k |-> "receive_nft"])
    [] e.o = "page" -> Ok([s EXCEPT !.page = Page(s, e)])
    [] e.o = "migrate" -> IF e.by # "deployer" \/ e.k = "v1" THEN Fail("migrate", s) ELSE Ok(s)
    [] e.o = "adv" -> Ok([s EXCEPT !.now = [h |-> @.h + e.n, t |-> @.t + e.s]])

Keys == {"a", "A", "ab", "b", "k1", "zz"}
Who(s) == {DAO, s.vm} \cup DOMAIN s.mods
Lists == {"items", "subs", "c20", "c721", "mods", "act", "bals"}
Walks == [walk_items |-> "same", walk_subs |-> "same", walk_c20 |-> "same", walk_c721 |-> "same", walk_mods |-> "same",
          walk_act |-> "same", walk_bals |-> "same"]
Obs(s) ==
  [l \in Lists |-> Shown(l, List(s, l))] @@ Walks @@
  [admin |-> s.admin, nom |-> s.nom, paused |-> IF Paused(s) THEN s.paused ELSE None, cfg |-> s.cfg, uri |-> s.cfg.uri, vm |-> s.vm,
   active |-> Cardinality(Enabled(s)), total |-> Cardinality(DOMAIN s.mods), page |-> s.page,
   get |-> [k \in { "k" \o x : x \in Keys } |-> LET x == CHOOSE x \in Keys : k = "k" \o x IN Get(s.items, x, "(none)")],
   power |-> [f \in {"alice", "bob", "total"} |-> s.pows[s.vm][f]],
   bal |-> [a \in Who(s) \cup {"payee1"} |-> Get(s.bal, a, "0")],
   adm |-> [a \in Who(s) |-> s.adm[a]], dump |-> TRUE]

Inv(s) ==
  [ live |-> Enabled(s) # {},
    count |-> s.total = Cardinality(DOMAIN s.mods),
    prefixes |-> \A a, b \in DOMAIN s.mods : a # b => s.mods[a].prefix # s.mods[b].prefix,
    conserve |-> BSumF(s.bal) = s.fund ]
\* by whom the DAO was made to act: a message of an enabled module, of the admin, or its own
Acts(x, e) == e.o = "call" /\ e.m.k \in {"hook", "admin"}
StepP(x, e, y) ==
  [ authority |-> (y.bal # x.bal \/ y.items # x.items \/ y.subs # x.subs \/ y.cfg # x.cfg \/ y.mods # x.mods \/ y.vm # x.vm
                    \/ (x.c20 \ y.c20) # {} \/ (x.c721 \ y.c721) # {}) =>
        e.o = "call" /\ (e.by = DAO \/ (e.m.k = "hook" /\ e.by \in Enabled(x)) \/ (e.m.k = "admin" /\ e.by = x.admin)),
    pausing |-> (Paused(x) /\ e.o # "adv") => (y = x \/ e.o \in {"page", "xfer20"} \/ (e.o = "call" /\ e.by \in {DAO, x.admin})),
    paused |-> (~Paused(x) /\ Paused(y)) => e.o = "call" /\ (e.by = DAO \/ e.by \in Enabled(x) \/ e.by = x.admin),
    admin |-> y.admin # x.admin => e.o = "call" /\ (e.by = x.nom \/ e.by = x.admin \/ e.by = DAO \/ e.by \in Enabled(x)),
    adminkeep |-> (e.o = "call" /\ e.m.k \in {"nominate", "withdraw"} /\ y.admin # x.admin) => e.by = x.admin /\ y.admin = DAO,
    accepted |-> (e.o = "call" /\ e.m.k = "accept" /\ y # x) => y.admin = x.nom /\ e.by = x.nom /\ y.nom = "",
    stable |-> \A a \in DOMAIN x.mods : a \in DOMAIN y.mods /\ y.mods[a].prefix = x.mods[a].prefix
                  /\ (x.mods[a].st = "disabled" => y.mods[a].st = "disabled"),
    tokens |-> (y.c20 # x.c20 /\ e.o = "send20") => x.cfg.c20 /\ y.c20 = x.c20 \cup {e.tok} ]
=============================================================================
