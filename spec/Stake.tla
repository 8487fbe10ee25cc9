-------------------------------- MODULE Stake --------------------------------
(* Voting power from staked fungible tokens.                                   *)
(* kind "token"  dao-voting-token-staked: the module itself keeps the stake;    *)
(*               power = tokens staked                                          *)
(*      "cw20"   dao-voting-cw20-staked over cw20-stake: power = shares of a    *)
(*               pool whose value grows by "fund"                               *)
(* "pool" is the account holding the staked tokens.                             *)
EXTENDS Staking
Users == {"alice", "bob", "carol", "dave"}
Tok(s) == s.kind = "token"
Home(s) == IF Tok(s) THEN "vote" ELSE "pool"
MaxClaims == 100
Supply(s) == BSumF(s.wal)
Total(st) == BSumF(st)
Sh(st, w) == Get(st, w, "0")
\* tokens standing behind the shares
Pot(s) == IF Tok(s) THEN Total(s.st) ELSE s.pot
ToShares(s, a) == IF Total(s.st) = "0" \/ Pot(s) = "0" THEN a ELSE BMulDiv(Total(s.st), a, Pot(s))
ToTokens(s, x) == BMulDiv(Pot(s), x, Total(s.st))
Move(s, from, to, a) ==
  IF BLt(s.wal[from], a) THEN Fail("funds", s)
  ELSE Ok([s EXCEPT !.wal = LET f == [@ EXCEPT ![from] = BSub(@, a)] IN [f EXCEPT ![to] = BAdd(@, a)]])
SetSt(s, w, x, pot) == [s EXCEPT !.hist = Remember(@, s.now.h, s.st), !.st = Put(@, w, x), !.pot = pot]
Text(k, w, a) == k \o ":" \o w \o ":" \o a
Stake(s, w, a) ==
  LET r == Move(s, w, "pool", a)
      x == ToShares(s, a)
  IN IF r.ok = "n" THEN r ELSE Tell(SetSt(r.s, w, BAdd(Sh(s.st, w), x), BAdd(s.pot, a)), Home(s), Text("stake", w, x))
\* native tokens come with the call: exactly one coin, of the right kind, not zero
StakeTok(s, w, q) ==
  IF Len(q) = 1 /\ q[1].d = "ugov" /\ q[1].a # "0" THEN Stake(s, w, q[1].a) ELSE Fail("payment", s)
Unstake(s, w, x) ==
  IF Tok(s) /\ x = "0" THEN Fail("zero", s)
  ELSE IF ~Tok(s) /\ Total(s.st) = "0" THEN Fail("nothing", s)
  \* the arithmetic is only meant for amounts whose sum is below 2^128
  ELSE IF ~Tok(s) /\ BGe(BAdd(x, s.pot), U128MAX) THEN Fail("limit", s)
  ELSE IF BLt(Sh(s.st, w), x) THEN Fail("balance", s)
  ELSE LET a == ToTokens(s, x)
           s1 == SetSt(s, w, BSub(Sh(s.st, w), x), BSub(s.pot, IF Tok(s) THEN "0" ELSE a))
           r == IF s.dur.k = "none" THEN Move(s1, "pool", w, a)
                ELSE IF Len(s.claims[w]) >= MaxClaims THEN Fail("claims", s)
                ELSE Ok([s1 EXCEPT !.claims[w] = Append(@, [a |-> a, e |-> After(s.now, s.dur)])])
       IN IF r.ok = "n" THEN r ELSE Tell(r.s, Home(s), Text("unstake", w, x))
RECURSIVE Burst(_, _, _)
Burst(s, w, n) == IF n = 0 THEN Ok(s) ELSE LET r == Unstake(s, w, "1") IN IF r.ok = "n" THEN r ELSE Burst(r.s, w, n - 1)
Claim(s, w) ==
  LET ripe == SelectSeq(s.claims[w], LAMBDA c : Reached(s.now, c.e))
      a == BSumSeq([i \in DOMAIN ripe |-> ripe[i].a])
  IN IF a = "0" THEN Fail("nothing", s)
     ELSE Move([s EXCEPT !.claims[w] = SelectSeq(@, LAMBDA c : ~Reached(s.now, c.e))], "pool", w, a)
Owner(s) == IF Tok(s) THEN "dao" ELSE s.own.owner
Own(s, by, act, who) ==
  CASE act = "transfer" -> IF by = s.own.owner THEN Ok([s EXCEPT !.own.pending = who]) ELSE Fail("owner", s)
    [] act = "accept" -> IF s.own.pending # "" /\ by = s.own.pending THEN Ok([s EXCEPT !.own = [owner |-> by, pending |-> ""]]) ELSE Fail("owner", s)
    [] OTHER -> IF by = s.own.owner THEN Ok([s EXCEPT !.own = [owner |-> "", pending |-> ""]]) ELSE Fail("owner", s)
Fund(s, w, a) == LET r == Move(s, w, "pool", a) IN IF r.ok = "n" THEN r ELSE Ok([r.s EXCEPT !.pot = BAdd(@, a)])
Mint(s, w, a) == IF BLe(BAdd(Supply(s), a), U128MAX) THEN Ok([s EXCEPT !.wal[w] = BAdd(@, a)]) ELSE Fail("overflow", s)

Apply(s, e) ==
  CASE e.o = "stake" -> IF Tok(s) THEN StakeTok(s, e.by, e.funds) ELSE IF e.t = "token" THEN Stake(s, e.by, e.a) ELSE Fail("token", s)
    [] e.o = "fund" -> IF e.t = "token" THEN Fund(s, e.by, e.a) ELSE Fail("token", s)
    [] e.o \in {"junk", "recv"} -> Fail("message", s)
    [] e.o = "unstake" -> Unstake(s, e.by, e.a)
    [] e.o = "burst" -> Burst(s, e.by, e.n)
    [] e.o = "claim" -> Claim(s, e.by)
    [] e.o = "dur" -> SetDur(s, e.by, Owner(s), e.d)
    [] e.o = "thr" -> SetThr(s, e.by, e.t, Supply(s))
    [] e.o = "hook" -> SetHook(s, e.by, Owner(s), e.who, e.add)
    [] e.o = "own" -> Own(s, e.by, e.act, e.who)
    \* a newer release of the same code: the administrator's alone, and nothing changes
    [] e.o = "renew" -> IF e.by = "dao" THEN Ok(s) ELSE Fail("unauthorized", s)
    [] e.o = "fail" -> Ok([s EXCEPT !.failing = IF e.on THEN @ \cup {e.who} ELSE @ \ {e.who}])
    [] e.o = "move" -> LET r == Move(s, e.by, e.to, e.a) IN
                       IF r.ok = "y" /\ e.to = "pool" THEN Ok([r.s EXCEPT !.gift = BAdd(@, e.a)]) ELSE r
    [] e.o = "mint" -> Mint(s, e.to, e.a)
    [] e.o = "burn" -> IF BLt(s.wal[e.by], e.a) THEN Fail("funds", s) ELSE Ok([s EXCEPT !.wal[e.by] = BSub(@, e.a)])
    [] e.o = "adv" -> Adv(s, e)
    [] e.o = "at" -> Ok([s EXCEPT !.at = [h |-> e.h, st |-> AtH(s.hist, s.st, e.h)]])
    [] e.o = "page" -> Ok([s EXCEPT !.page = [q |-> SelectSeq(Sorted(DOMAIN s.st), LAMBDA w : e.after = "" \/ SLt(e.after, w)), st |-> s.st,
                             lim |-> IF e.limit >= 0 THEN e.limit ELSE 10]])

Init(c) ==
  LET f == [w \in Users |-> c.bals[w]]
      held == BSumF(f)
      all == BAdd(held, c.dbal)
      new == c.src = "new"
      s == [kind |-> c.kind, src |-> c.src, now |-> [h |-> 0, t |-> 0], wal |-> f @@ [dao |-> c.dbal, pool |-> "0"], pot |-> "0", gift |-> "0",
            st |-> EmptyF, hist |-> <<>>, claims |-> [w \in Users |-> <<>>], dur |-> c.dur, act |-> c.act, hooks |-> <<>>, failing |-> {},
            log |-> [l \in Listeners |-> [n |-> 0, last |-> ""]], ord |-> <<>>, meta |-> Get(c, "meta", "plain"), two |-> Get(c, "two", ""), max |-> Get(c, "max", "0"), own |-> [owner |-> IF c.src = "shared" THEN "boss" ELSE "dao", pending |-> ""],
            at |-> [h |-> 0, st |-> EmptyF], page |-> [q |-> <<>>, st |-> EmptyF, lim |-> 0]]
      ok == /\ DurOk(c.dur) /\ PctOk(c.act)
            /\ CASE c.src = "existing" -> CntOk(c.act, all)
                 \* a token made for the DAO must be held by somebody else than the DAO
                 [] c.src = "factory" -> held # "0" /\ CntOk(c.act, held)
                 \* a fan token has a maximal supply
                 [] c.src = "btsg" -> held # "0" /\ CntOk(c.act, held) /\ BLe(all, c.max)
                 [] c.src = "new" /\ c.kind = "token" -> held # "0" /\ CntOk(c.act, held)
                 \* a cw20 names every first holder once
                 [] c.src = "new" -> held # "0" /\ CntOk(c.act, all) /\ (IF s.two = "" THEN TRUE ELSE ~BLt("1", c.bals[s.two]))
                 [] c.src \in {"fresh", "shared"} -> CntOk(c.act, held)
                 [] OTHER -> FALSE
  IN [ok |-> ok, s |-> s]

-----------------------------------------------------------------------------
\* what the founding made is the DAO's, and made once and for all
Made(s) ==
  LET new == s.src = "new"
      iss == [adm |-> "dao", own |-> [owner |-> "dao", pend |-> "", exp |-> [k |-> "never", v |-> 0]], denom |-> TRUE, frozen |-> FALSE, minters |-> <<>>, burners |-> <<>>,
              chain |-> <<"issuer", "", IF s.meta = "none" THEN "" ELSE "the token|UGOV" \o (IF s.meta = "units" THEN ",mgov,gov" ELSE "") \o "|gov|Gov|GOV">>]
      tok == IF new THEN [adm |-> "dao", name |-> "token", sym |-> "TOK", dec |-> "6", minter |-> "dao", cap |-> "null"]
             ELSE [adm |-> "", name |-> "token", sym |-> "TOK", dec |-> "6", minter |-> "cwminter", cap |-> "null"]
  IN [vote |-> "dao"] @@ (IF Tok(s) THEN (IF new THEN [issuer |-> iss] ELSE IF s.src = "btsg" THEN [fan |-> [auth |-> "dao", minter |-> "dao", cap |-> s.max, meta |-> "ugov|Gov|ipfs", left |-> FALSE]] ELSE EmptyF)
                          ELSE [token |-> tok, pool |-> [adm |-> IF s.src = "shared" THEN "" ELSE "dao", token |-> "token"]])
Now(s) == AtH(s.hist, s.st, s.now.h)
Powers(st) == [w \in Users |-> Sh(st, w)]
List(q, st) == [i \in DOMAIN q |-> <<q[i], st[q[i]]>>]
\* the native module judges activity by the stake of this moment, the others by the stake at the start of the block
Active(s) == IsActive(s.act, IF Tok(s) THEN Total(s.st) ELSE Total(Now(s)), Supply(s))
Obs(s) ==
  [now |-> s.now, power |-> Powers(Now(s)), total |-> Total(Now(s)), at |-> [h |-> s.at.h, p |-> Powers(s.at.st), t |-> Total(s.at.st)],
   page |-> List(Take(s.page.q, s.page.lim), s.page.st), supply |-> Supply(s), stakers |-> List(Sorted(DOMAIN s.st), s.st), wal |-> s.wal,
   act |-> s.act, active |-> Active(s), dur |-> s.dur, claims |-> s.claims, hooks |-> s.hooks, log |-> s.log, ord |-> s.ord, daoq |-> "dao", made |-> Made(s)]
  @@ (IF Tok(s) THEN [id |-> <<"ugov", IF s.src = "factory" THEN "factory" ELSE IF s.src = "new" THEN "issuer" ELSE "none">>]
      ELSE [value |-> [w \in Users |-> IF s.pot = "0" \/ Sh(s.st, w) = "0" THEN "0" ELSE ToTokens(s, Sh(s.st, w))], tvalue |-> s.pot, own |-> s.own])

Pending(s) == BSumF([w \in Users |-> BSumSeq([i \in DOMAIN s.claims[w] |-> s.claims[w][i].a])])
Inv(s) ==
  [ \* everything owed is in the pool: stake, rewards and claims (gifts apart)
    backed |-> s.wal["pool"] = BAdd(BAdd(Pot(s), Pending(s)), s.gift),
    \* shares never promise more than there is
    solvent |-> BLe(BSumF([w \in DOMAIN s.st |-> IF Total(s.st) = "0" THEN "0" ELSE ToTokens(s, s.st[w])]), Pot(s)),
    worth |-> Tok(s) \/ BGe(s.pot, Total(s.st)),
    durok |-> DurOk(s.dur),
    pctok |-> PctOk(s.act),
    many |-> \A w \in Users : Len(s.claims[w]) <= MaxClaims ]
Worth(s, w) == IF Total(s.st) = "0" THEN "0" ELSE ToTokens(s, Sh(s.st, w))
StepP(x, e, y) ==
  [ \* what a height showed never changes once the height has begun
    past |-> \A h \in Moments(x.hist, x.now.h) : AtH(x.hist, x.st, h) = AtH(y.hist, y.st, h) \/ (\A w \in Users : Sh(AtH(x.hist, x.st, h), w) = Sh(AtH(y.hist, y.st, h), w)),
    mine |-> \A w \in Users : Sh(x.st, w) # Sh(y.st, w) => e.o \in {"stake", "unstake", "burst"} /\ e.by = w,
    \* nobody loses by what others do
    fair |-> \A w \in Users : (e.o \notin {"adv"} /\ ("by" \notin DOMAIN e \/ e.by # w)) => BLe(Worth(x, w), Worth(y, w)),
    \* coming and going gains nothing
    nogain |-> (~Tok(x) /\ e.o = "stake" /\ y # x /\ Total(x.st) # "0") => BLe(Worth(y, e.by), BAdd(BAdd(Worth(x, e.by), e.a), "1")),
    claims |-> \A w \in Users : x.claims[w] # y.claims[w] => e.o \in {"unstake", "burst", "claim"} /\ e.by = w,
    early |-> \A w \in Users : \A i \in DOMAIN x.claims[w] : (~Reached(x.now, x.claims[w][i].e)) => x.claims[w][i] \in Range(y.claims[w]),
    thr |-> x.act # y.act => e.o = "thr" /\ e.by = "dao" ]
=============================================================================
