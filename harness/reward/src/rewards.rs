//! dao-rewards-distributor over three sources of voting power.
use kit::cosmwasm_std::{Addr, Binary, Coin};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, Rng, Value, World};
use std::collections::BTreeSet;

pub const SUITE: kit::Suite = kit::Suite { name: "rewards", cfg, new };
const USERS: [&str; 3] = ["alice", "bob", "carol"];
const ACCTS: [&str; 6] = ["alice", "bob", "carol", "boss", "dest", "rd"];

struct W {
    app: App,
    /// the code of the module, and of its older release
    code: [u64; 2],
    /// whether the module is renewed
    ren: bool,
    lab: Labels,
    nfts: Vec<String>,
    /// sources whose power changed in this block
    changed: BTreeSet<String>,
    page: Value,
}
fn bin(v: Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let mut app = app();
    // members of the group count from the next block on
    app.update_block(|b| b.height -= 1);
    let mut lab = Labels::default();
    let (boss, dao) = (Addr::unchecked("boss"), Addr::unchecked("dao"));
    let list = |v: &Value| -> Vec<(String, u128)> { v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), u(v).u128())).collect()).unwrap_or_default() };
    let cw20 = app.store_code(cw20_contract());
    let c20 = list(&cfg["c20"]);
    let rew = new_cw20(&mut app, cw20, &c20.iter().map(|(a, b)| (a.as_str(), *b)).collect::<Vec<_>>());
    lab.add(&rew, "c20");
    for (w, n) in list(&cfg["nat"]) { mint(&mut app, &w, "unat", n); }
    mint(&mut app, "boss", "uother", 1_000_000);
    let grp = app.store_code(Box::new(ContractWrapper::new(cw4_group::contract::execute, cw4_group::contract::instantiate, cw4_group::contract::query)));
    let ms: Vec<Value> = list(&cfg["g"]).iter().map(|(w, n)| json!({"addr": w, "weight": *n as u64})).collect();
    let g = app.instantiate_contract(grp, boss.clone(), &json!({"admin": "boss", "members": ms}), &[], "g", None)?;
    lab.add(&g, "gh");
    let c = app.store_code(Box::new(ContractWrapper::new(dao_voting_cw4::contract::execute, dao_voting_cw4::contract::instantiate, dao_voting_cw4::contract::query).with_reply(dao_voting_cw4::contract::reply)));
    let vg = app.instantiate_contract(c, dao.clone(), &json!({"group_contract": {"existing": {"address": g.to_string()}}}), &[], "vg", None)?;
    lab.add(&vg, "g");
    for (w, n) in list(&cfg["ft"]) { mint(&mut app, &w, "ugov", n); }
    let c = app.store_code(Box::new(ContractWrapper::new(dao_voting_token_staked::contract::execute, dao_voting_token_staked::contract::instantiate, dao_voting_token_staked::contract::query).with_reply(dao_voting_token_staked::contract::reply)));
    let vt = app.instantiate_contract(c, dao.clone(), &json!({"token_info": {"existing": {"denom": "ugov"}}, "unstaking_duration": null, "active_threshold": null}), &[], "vt", None)?;
    lab.add(&vt, "t");
    let nft = app.store_code(Box::new(ContractWrapper::new(cw721_base::entry::execute, cw721_base::entry::instantiate, cw721_base::entry::query)));
    let coll = app.instantiate_contract(nft, boss.clone(), &json!({"name": "n", "symbol": "N", "minter": "boss"}), &[], "n", None)?;
    lab.add(&coll, "nft");
    let mut nfts = vec![];
    for (w, n) in list(&cfg["fn"]) {
        for _ in 0..n {
            let id = format!("n{}", nfts.len());
            app.execute_contract(boss.clone(), coll.clone(), &json!({"mint": {"token_id": id, "owner": w, "token_uri": null, "extension": {}}}), &[])?;
            nfts.push(id);
        }
    }
    if nfts.is_empty() { app.execute_contract(boss.clone(), coll.clone(), &json!({"mint": {"token_id": "x", "owner": "boss", "token_uri": null, "extension": {}}}), &[])?; }
    let c = app.store_code(Box::new(ContractWrapper::new(dao_voting_cw721_staked::contract::execute, dao_voting_cw721_staked::contract::instantiate, dao_voting_cw721_staked::contract::query).with_reply(dao_voting_cw721_staked::contract::reply)));
    let vn = app.instantiate_contract(c, dao.clone(), &json!({"nft_contract": {"existing": {"address": coll.to_string()}}, "unstaking_duration": null, "active_threshold": null}), &[], "vn", None)?;
    lab.add(&vn, "n");
    let code = renewable(&mut app, || Box::new(ContractWrapper::new(dao_rewards_distributor::contract::execute, dao_rewards_distributor::contract::instantiate, dao_rewards_distributor::contract::query).with_migrate(dao_rewards_distributor::contract::migrate)));
    let rd = app.instantiate_contract(code[0], boss.clone(), &json!({"owner": null}), &[], "rd", Some("dao".into()))?;
    lab.add(&rd, "rd");
    for h in strs(&cfg["hooked"]) {
        let (by, to) = if h == "g" { (boss.clone(), &g) } else if h == "t" { (dao.clone(), &vt) } else { (dao.clone(), &vn) };
        app.execute_contract(by, to.clone(), &json!({"add_hook": {"addr": rd.to_string()}}), &[])?;
    }
    app.update_block(|b| b.height += 1);
    Ok(Box::new(W { app, code, ren: cfg["renew"] == true, lab, nfts, changed: Default::default(), page: json!([]) }))
}
fn rate(v: &Value) -> Value {
    match v["k"].as_str().unwrap() {
        "same" => Value::Null,
        "paused" => json!({"paused": {}}),
        "imm" => json!({"immediate": {}}),
        _ => { let n: u64 = st(&v["dur"]["v"]).parse().unwrap();
            json!({"linear": {"amount": v["amt"], "duration": if v["dur"]["k"] == "h" { json!({"height": n}) } else { json!({"time": n}) }, "continuous": v["cont"]}}) }
    }
}
fn jrate(v: &Value) -> Value {
    let l = &v["linear"];
    if v["paused"].is_object() { json!({"k": "paused"}) } else if v["immediate"].is_object() { json!({"k": "imm"}) }
    else { let d = &l["duration"];
        let (k, n) = if d["height"].is_u64() { ("h", &d["height"]) } else { ("t", &d["time"]) };
        json!({"k": "lin", "amt": l["amount"], "dur": {"k": k, "v": n.to_string()}, "cont": l["continuous"]}) }
}
fn jend(v: &Value) -> Value {
    if let Some(h) = v["at_height"].as_u64() { json!({"k": "h", "v": (h - H0).to_string()}) }
    else if let Some(t) = v["at_time"].as_str() { json!({"k": "t", "v": (t.parse::<u64>().unwrap() / 1_000_000_000 - T0).to_string()}) }
    else if v["never"].is_object() { json!({"k": "never", "v": "0"}) } else { json!({"k": "?", "v": v.to_string()}) }
}
impl W {
    fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn call(&mut self, by: &str, to: &str, msg: &Value, f: &[Coin]) -> (bool, Value) {
        let (by, to) = (self.lab.addr(by), self.a(to));
        exec(&mut self.app, &by, &to, msg, f)
    }
    fn hold(&self, asset: &str, w: &str) -> String {
        if asset == "nat" { bal(&self.app, &self.a(w), "unat") } else { cw20_bal(&self.app, &self.a("c20"), &self.lab.addr(w)) }
    }
    fn has(&self, asset: &str, w: &str) -> u128 {
        self.hold(asset, w).parse().unwrap_or(0)
    }
    fn hook(&self, h: &str) -> Value {
        if h.is_empty() { Value::Null } else { json!(self.lab.addr(if h == "g" { "gh" } else { h })) }
    }
    fn denom(&self, a: &str) -> Value {
        match a { "nat" => json!({"native": "unat"}), "c20" => json!({"cw20": self.lab.addr("c20")}), _ => json!({"cw20": self.lab.addr("g")}) }
    }
    fn coins(&self, op: &Value) -> Vec<Coin> {
        let n = u(&op["a"]);
        let c = |d: &str, n| Coin { denom: d.into(), amount: n };
        match op["t"].as_str().unwrap() { "ok" => if n.is_zero() { vec![] } else { vec![c("unat", n)] }, "other" => vec![c("uother", 5u128.into())], _ => vec![c("unat", n), c("uother", 5u128.into())] }
    }
    fn opt(&self, v: &Value) -> Value {
        let s = v.as_str().unwrap();
        if s.is_empty() { Value::Null } else { json!(self.lab.addr(s)) }
    }
    fn dists(&self) -> Vec<Value> {
        let (mut o, mut after) = (vec![], Value::Null);
        loop {
            let v = q(&self.app, &self.a("rd"), &json!({"distributions": {"start_after": after, "limit": 2}}))["distributions"].clone();
            match v.as_array() { Some(a) if !a.is_empty() && o.len() < 60 => {
                    after = a.last().unwrap()["id"].clone();
                    // the list and the single answer are one
                    for d in a { let one = q(&self.app, &self.a("rd"), &json!({"distribution": {"id": d["id"]}})); o.push(if one == *d { one } else { json!({"list": d, "one": one}) }); }
                } _ => return o }
        }
    }
    fn src(&self, d: &Value) -> String {
        self.lab.label(d["vp_contract"].as_str().unwrap_or("?"))
    }
    fn owned(&self, w: &str) -> Vec<String> {
        let a = self.a("nft");
        self.nfts.iter().filter(|i| q(&self.app, &a, &json!({"owner_of": {"token_id": i, "include_expired": null}}))["owner"] == w).cloned().collect()
    }
    fn staked(&self, w: &str) -> Vec<String> {
        strs(&q(&self.app, &self.a("n"), &json!({"staked_nfts": {"address": w, "start_after": null, "limit": 30}})))
    }
    fn free(&self, s: &str, w: &str) -> u128 {
        if s == "t" { bal(&self.app, &self.a(w), "ugov").parse().unwrap() } else { self.owned(w).len() as u128 }
    }
    fn power(&self, s: &str, w: &str) -> Value {
        q(&self.app, &self.a(s), &json!({"voting_power_at_height": {"address": w, "height": self.app.block_info().height}}))["power"].clone()
    }
    fn owner(&self) -> Value {
        own(&self.app, &self.lab, &self.a("rd"))
    }
    fn step(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        let id = op["id"].clone();
        match op["o"].as_str().unwrap() {
            "create" => {
                let open = match op["open"].as_str().unwrap() { "" => Value::Null, x => json!(x == "y") };
                let m = json!({"create": {"denom": self.denom(op["as"].as_str().unwrap()), "emission_rate": rate(&op["rate"]), "vp_contract": self.lab.addr(op["src"].as_str().unwrap()),
                    "hook_caller": self.hook(op["hook"].as_str().unwrap()), "open_funding": open, "withdraw_destination": self.opt(&op["dest"])}});
                let f = self.coins(op);
                self.call(&by, "rd", &m, &f)
            }
            "update" => {
                let open = match op["open"].as_str().unwrap() { "" => Value::Null, x => json!(x == "y") };
                let m = json!({"update": {"id": id, "emission_rate": rate(&op["rate"]), "vp_contract": self.opt(&op["src"]), "hook_caller": self.hook(op["hook"].as_str().unwrap()), "open_funding": open, "withdraw_destination": self.opt(&op["dest"])}});
                self.call(&by, "rd", &m, &[])
            }
            "fund" => {
                let m = if id == 0 { json!({"fund_latest": {}}) } else { json!({"fund": {"id": id}}) };
                if op["as"] == "nat" { let n = u(&op["a"]); let f = if n.is_zero() { vec![] } else { vec![Coin { denom: "unat".into(), amount: n }] }; self.call(&by, "rd", &m, &f) }
                else { let m = json!({"send": {"contract": self.lab.addr("rd"), "amount": op["a"], "msg": bin(m)}}); self.call(&by, "c20", &m, &[]) }
            }
            "claim" => self.call(&by, "rd", &json!({"claim": {"id": id}}), &[]),
            "withdraw" => self.call(&by, "rd", &json!({"withdraw": {"id": id}}), &[]),
            "group" => {
                let add: Vec<Value> = op["add"].as_array().unwrap().iter().map(|x| json!({"addr": x["w"], "weight": st(&x["n"]).parse::<u64>().unwrap()})).collect();
                let m = json!({"update_members": {"add": add, "remove": op["rm"]}});
                self.call("boss", "gh", &m, &[])
            }
            "stake" if op["src"] == "t" => { let n = u(&op["a"]); let f = if n.is_zero() { vec![] } else { vec![Coin { denom: "ugov".into(), amount: n }] }; self.call(&by, "t", &json!({"stake": {}}), &f) }
            "stake" => match self.owned(&by).first().filter(|_| op["a"] == "1") {
                Some(i) => { let m = json!({"send_nft": {"contract": self.lab.addr("n"), "token_id": i, "msg": bin(json!({}))}}); self.call(&by, "nft", &m, &[]) }
                None => (false, json!({"err": "no nft"})),
            },
            "unstake" if op["src"] == "t" => self.call(&by, "t", &json!({"unstake": {"amount": op["a"]}}), &[]),
            "unstake" => { let mut i = self.staked(&by); let n = u(&op["a"]).u128() as usize; let short = i.len() < n; i.truncate(n); if short { i.push("zz".into()) } self.call(&by, "n", &json!({"unstake": {"token_ids": i}}), &[]) }
            "renew" => { let (c, d) = (self.a("rd"), self.lab.addr("dao")); let by = self.lab.addr(&by); renew(&mut self.app, self.code, &c, &d, &by, op["from"].as_str().unwrap()) }
            "news" => {
                let m = match op["t"].as_str().unwrap() { "stake" => json!({"stake_change_hook": {"stake": {"addr": op["who"], "amount": "5"}}}), "unstake" => json!({"stake_change_hook": {"unstake": {"addr": op["who"], "amount": "5"}}}),
                    "nft" => json!({"nft_stake_change_hook": {"stake": {"addr": op["who"], "token_id": "1"}}}), "nftun" => json!({"nft_stake_change_hook": {"unstake": {"addr": op["who"], "token_ids": ["1"]}}}),
                    _ => json!({"member_changed_hook": {"diffs": [{"key": op["who"], "old": 1, "new": 2}]}}) };
                self.call(&by, "rd", &m, &[])
            }
            "offer" | "accept" | "renounce" => { let m = own_msg(&self.lab, op); self.call(&by, "rd", &json!({"update_ownership": m}), &[]) }
            "adv" => { advance(&mut self.app, op); if op["n"].as_u64().unwrap() > 0 { self.changed.clear(); } (true, json!({})) }
            "page" => {
                let l = op["limit"].as_i64().unwrap();
                let (after, l) = (if op["after"] == 0 { Value::Null } else { op["after"].clone() }, if l < 0 { Value::Null } else { json!(l) });
                let ids = |v: &Value| Value::Array(v.as_array().map(|a| a.iter().map(|x| x["id"].clone()).collect()).unwrap_or_default());
                let d = ids(&q(&self.app, &self.a("rd"), &json!({"distributions": {"start_after": after, "limit": l}}))["distributions"]);
                let p = ids(&q(&self.app, &self.a("rd"), &json!({"pending_rewards": {"address": "alice", "start_after": after, "limit": l}}))["pending_rewards"]);
                self.page = if d == p { d } else { json!([d, p]) };
                (true, json!({}))
            }
            x => panic!("op {x}"),
        }
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let r = self.step(op);
        if r.0 {
            match op["o"].as_str().unwrap() { "group" => { self.changed.insert("g".into()); } "stake" | "unstake" => { self.changed.insert(st(&op["src"])); } _ => {} }
        }
        r
    }
    fn obs(&mut self) -> Value {
        let mut o = json!({"now": clock(&self.app), "own": self.owner(), "page": self.page.clone()});
        o["hold"] = map(["nat", "c20"].iter().map(|t| (t.to_string(), map(ACCTS.iter().map(|w| (w.to_string(), json!(self.hold(t, w))))))));
        let rd = self.a("rd");
        let ds = self.dists();
        let l = |v: &Value| { let x = self.lab.label(v.as_str().unwrap_or("?")); if x == "gh" { "g".into() } else { x } };
        o["ds"] = Value::Array(ds.iter().map(|d| { let e = &d["active_epoch"];
            json!({"as": if d["denom"]["native"] == "unat" { "nat" } else if d["denom"]["cw20"] == json!(self.lab.addr("c20")) { "c20" } else { "?" }, "rate": jrate(&e["emission_rate"]), "start": jend(&e["started_at"]), "end": jend(&e["ends_at"]),
                "last": jend(&e["last_updated_total_earned_puvp"]), "puvp": e["total_earned_puvp"], "past": d["historical_earned_puvp"], "src": l(&d["vp_contract"]), "hook": l(&d["hook_caller"]), "open": d["open_funding"],
                "funded": d["funded_amount"], "dest": l(&d["withdraw_destination"])}) }).collect());
        o["power"] = map(["g", "t", "n"].iter().map(|s| (s.to_string(), map(USERS.iter().map(|w| (w.to_string(), self.power(s, w)))))));
        let h = self.app.block_info().height;
        o["total"] = map(["g", "t", "n"].iter().map(|s| (s.to_string(), q(&self.app, &self.a(s), &json!({"total_power_at_height": {"height": h}}))["power"].clone())));
        o["pend"] = map(USERS.iter().map(|w| { let v = q(&self.app, &rd, &json!({"pending_rewards": {"address": w, "start_after": null, "limit": 50}}));
            (w.to_string(), v["pending_rewards"].as_array().map(|a| Value::Array(a.iter().map(|x| x["pending_rewards"].clone()).collect())).unwrap_or(v.clone())) }));
        o["undist"] = Value::Array((1..=ds.len()).map(|i| q(&self.app, &rd, &json!({"undistributed_rewards": {"id": i}}))).collect());
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let ds = self.dists();
        let n = ds.len() as u64;
        let k = if n == 0 && r.chance(2, 3) && !self.owner()["owner"].as_str().unwrap_or("").is_empty() { "create" } else {
            r.wn(&[(if n < 4 { 12 } else { 1 }, "create"), (18, "update"), (60, "fund"), (60, "claim"), (8, "withdraw"), (30, "group"), (40, "stake"), (24, "unstake"), (3, "news"), (24 * self.ren as u32, "renew"), (5, "offer"), (8, "accept"), (1, "renounce"), (80, "adv"), (5, "page")]) };
        let who = r.s(&USERS);
        let o = self.owner();
        let boss = { let x = o["owner"].as_str().unwrap_or(""); if x.is_empty() || r.chance(1, 14) { r.s(&["alice", "bob", "boss"]) } else { x.to_string() } };
        let id = if n == 0 || r.chance(1, 20) { r.range(1, n + 1) } else { r.range(1, n) };
        let d = ds.get(id as usize - 1).cloned().unwrap_or(json!({}));
        let hot = self.changed.contains(&self.src(&d));
        let advance = |r: &mut Rng| { let n = r.wn(&[(2, "0"), (8, "1"), (4, "2"), (3, "5"), (2, "20")]).parse::<u64>().unwrap(); let s = if n == 0 { 0 } else { r.range(0, 5) * n }; json!({"o": "adv", "n": n, "s": s}) };
        match k {
            "create" => {
                let src = r.wn(&[(4, "g"), (5, "t"), (4, "n")]).to_string();
                let hook = if r.chance(1, 25) { r.s(&["alice", "g", "t", "n"]) } else { src.clone() };
                let asset = r.wn(&[(8, "nat"), (6, "c20"), (1, "bad")]);
                let mut rt = grate(r);
                let pay = asset == "nat" && r.chance(1, 3) || r.chance(1, 30);
                if pay && rt["k"] == "imm" && self.changed.contains(&src) { rt = json!({"k": "paused"}); }
                let have = self.has("nat", &boss);
                json!({"o": k, "by": boss, "as": asset, "rate": rt, "src": if r.chance(1, 40) { "nft".into() } else { src }, "hook": hook, "open": r.s(&["", "y", "n"]), "dest": r.s(&["", "dest", "carol"]),
                    "a": if pay { some(r, have).to_string() } else { "0".into() }, "t": if r.chance(1, 30) { r.s(&["other", "both"]) } else { "ok".into() }})
            }
            "update" => {
                let mut rt = if r.chance(3, 4) { grate(r) } else { json!({"k": "same"}) };
                if r.chance(1, 12) && d["active_epoch"].is_object() { rt = jrate(&d["active_epoch"]["emission_rate"]); }
                if rt["k"] == "imm" && hot { rt = json!({"k": "paused"}); }
                let swap = r.chance(1, 30);
                json!({"o": k, "by": boss, "id": id, "rate": rt, "src": if swap { r.s(&["g", "t", "n", "nft"]) } else { "".into() }, "hook": if swap || r.chance(1, 40) { r.s(&["g", "t", "n", "alice"]) } else { "".into() },
                    "open": r.s(&["", "", "y", "n"]), "dest": r.s(&["", "", "dest", "bob"])})
            }
            "fund" => {
                // mostly what somebody will receive
                let s = self.src(&d);
                if n > 0 && ["t", "n"].contains(&s.as_str()) && USERS.iter().all(|w| self.power(&s, w) == "0") && r.chance(1, 2) {
                    let f = self.free(&s, &who);
                    if f > 0 { return json!({"o": "stake", "by": who, "src": s, "a": if s == "n" { "1".into() } else { r.amt(f).max(1).to_string() }}); }
                }
                let e = &d["active_epoch"];
                let ended = jend(&e["ends_at"]);
                let at_once = e["emission_rate"]["immediate"].is_object() || (e["emission_rate"]["linear"]["continuous"] == true && ended["k"] != "never");
                if hot && at_once { return advance(r); }
                let latest = id == n && r.chance(1, 3);
                let mut asset = if d["denom"]["native"].is_string() { "nat" } else { "c20" };
                if r.chance(1, 30) { asset = if asset == "nat" { "c20" } else { "nat" }; }
                let by = r.wn(&[(8, "boss"), (2, "alice"), (2, "bob")]).to_string();
                let have = self.has(asset, &by);
                json!({"o": k, "by": by, "id": if latest { 0 } else { id }, "as": asset, "a": some(r, have).to_string()})
            }
            "claim" => {
                let rd = self.a("rd");
                let mut full = vec![];
                for w in USERS { for i in 1..=n { let v = q(&self.app, &rd, &json!({"pending_rewards": {"address": w, "start_after": i - 1, "limit": 1}})); if v["pending_rewards"][0]["pending_rewards"] != "0" { full.push((w.to_string(), i)); } } }
                if full.is_empty() && r.chance(4, 5) { return advance(r); }
                let (who, id) = if full.is_empty() || r.chance(1, 6) { (who, id) } else { r.pick(&full).clone() };
                json!({"o": k, "by": who, "id": id})
            }
            "withdraw" => json!({"o": k, "by": boss, "id": id}),
            "group" => {
                let mut add = vec![];
                for w in USERS { if r.chance(1, 2) { add.push(json!({"w": w, "n": r.wn(&[(1, "0"), (4, "1"), (3, "2"), (2, "7"), (1, "1000000000")])})); } }
                let rm: Vec<String> = USERS.iter().filter(|_| r.chance(1, 5)).map(|x| x.to_string()).collect();
                json!({"o": k, "add": add, "rm": rm})
            }
            "stake" => { let s = r.s(&["t", "t", "n"]); let f = self.free(&s, &who); let a = if s == "n" { 1 } else { r.amt(f) }; json!({"o": k, "by": who, "src": s, "a": a.to_string()}) }
            "unstake" => {
                let s = r.s(&["t", "t", "n"]);
                let f = if s == "n" { self.staked(&who).len() as u128 } else { u(&q(&self.app, &self.a("t"), &json!({"voting_power_at_height": {"address": who, "height": self.app.block_info().height + 1}}))["power"]).u128() };
                let a = if r.chance(1, 20) { f + 1 } else { r.amt(f) };
                json!({"o": k, "by": who, "src": s, "a": a.to_string()})
            }
            "renew" => json!({"o": "renew", "by": if r.chance(7, 8) { "dao".into() } else { r.s(&["alice", "bob", "boss"]) }, "from": r.s(&["same", "2.3.0", "2.4.2"])}),
            "news" => json!({"o": k, "by": r.s(&["alice", "boss"]), "who": who, "t": r.s(&["stake", "unstake", "nft", "nftun", "member"])}),
            "offer" | "accept" | "renounce" => gown(r, k, &o, &who, &["boss", "alice", "boss"], &clock(&self.app)),
            "page" => json!({"o": k, "after": r.below(3), "limit": r.range(0, 4) as i64 - 1}),
            _ => advance(r),
        }
    }
}
fn some(r: &mut Rng, have: u128) -> u128 {
    if r.chance(1, 30) { return have.saturating_add(1); }
    match r.below(4) { 0 => (have / 5).min(100), 1 => have / r.range(3, 20) as u128, 2 => r.range(1, 60).min(have as u64) as u128, _ => r.amt(have / 3) }
}
fn grate(r: &mut Rng) -> Value {
    let k = r.wn(&[(2, "paused"), (3, "imm"), (9, "lin")]);
    if k != "lin" { return json!({"k": k}); }
    let amt = match r.below(20) { 0 => "0".to_string(), 1 => "340282366920938463463374607431768211455".into(), 2 | 3 => r.u128().to_string(), _ => r.range(1, 40).to_string() };
    let v = match r.below(20) { 0 => "0".to_string(), 1 => u64::MAX.to_string(), 2 => "10000000000".into(), _ => r.range(1, 12).to_string() };
    json!({"k": "lin", "amt": amt, "dur": {"k": r.s(&["h", "t"]), "v": v}, "cont": r.chance(1, 2)})
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let m: u128 = if r.chance(1, 3) { 1_000_000_000_000_000_000_000_000_000 } else { 100_000 };
    let bals = |r: &mut Rng| json!({"boss": m.to_string(), "alice": r.amt(m).max(1).to_string(), "bob": r.amt(1000).max(1).to_string()});
    let hooked: Vec<&str> = ["g", "t", "n"].iter().filter(|_| r.chance(15, 16)).copied().collect();
    let some_of: Vec<&str> = USERS.iter().filter(|_| r.chance(2, 3)).copied().collect();
    let g = map(some_of.iter().map(|w| (w.to_string(), json!(r.wn(&[(3, "1"), (2, "3"), (1, "0")])))));
    let f = |r: &mut Rng, n: u128| map(USERS.iter().map(|w| (w.to_string(), json!(r.amt(n).to_string()))));
    let (nat, c20) = (bals(r), bals(r));
    let tok = if r.chance(1, 2) { 12 } else { 1_000_000_000 };
    let (ft, fnn) = (f(r, tok), f(r, 4));
    json!({"renew": focus == "renew", "nat": nat, "c20": c20, "g": if g == json!({}) { json!({"alice": "1"}) } else { g }, "ft": ft, "fn": fnn, "hooked": hooked})
}
