//! cw-fund-distributor over a membership group with a past.
use kit::cosmwasm_std::{Addr, Binary, Coin};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "fund", cfg, new };
const USERS: [&str; 3] = ["alice", "bob", "carol"];
const ACCTS: [&str; 5] = ["alice", "bob", "carol", "boss", "fd"];
const ASSETS: [&str; 4] = ["una", "unb", "c1", "c2"];

struct W {
    app: App,
    lab: Labels,
    code: u64,
    page: Value,
    /// end of the funding period
    until: (bool, u64),
}
fn bin(v: Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
fn is_coin(x: &str) -> bool {
    x.starts_with('u')
}
fn set_members(app: &mut App, g: &Addr, m: &Value) -> anyhow::Result<()> {
    let add: Vec<Value> = m.as_object().map(|m| m.iter().map(|(w, n)| json!({"addr": w, "weight": st(n).parse::<u64>().unwrap()})).collect()).unwrap_or_default();
    let rm: Vec<&str> = USERS.iter().filter(|w| m[**w].is_null()).copied().collect();
    app.execute_contract(Addr::unchecked("boss"), g.clone(), &json!({"update_members": {"add": add, "remove": rm}}), &[])?;
    Ok(())
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let mut app = app();
    let mut lab = Labels::default();
    let boss = Addr::unchecked("boss");
    let list = |v: &Value| -> Vec<(String, u128)> { v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), u(v).u128())).collect()).unwrap_or_default() };
    let cw20 = app.store_code(cw20_contract());
    for x in ASSETS {
        let b = list(&cfg["hold"][x]);
        if is_coin(x) { for (w, n) in b { mint(&mut app, &w, x, n); } }
        else { let a = new_cw20(&mut app, cw20, &b.iter().map(|(a, b)| (a.as_str(), *b)).collect::<Vec<_>>()); lab.add(&a, x); }
    }
    let grp = app.store_code(Box::new(ContractWrapper::new(cw4_group::contract::execute, cw4_group::contract::instantiate, cw4_group::contract::query)));
    let g = app.instantiate_contract(grp, boss.clone(), &json!({"admin": "boss", "members": []}), &[], "g", None)?;
    lab.add(&g, "grp");
    let c = app.store_code(Box::new(ContractWrapper::new(dao_voting_cw4::contract::execute, dao_voting_cw4::contract::instantiate, dao_voting_cw4::contract::query).with_reply(dao_voting_cw4::contract::reply)));
    for (i, m) in cfg["past"].as_array().unwrap().iter().enumerate() {
        set_members(&mut app, &g, m)?;
        if i == 0 {
            let vg = app.instantiate_contract(c, Addr::unchecked("dao"), &json!({"group_contract": {"existing": {"address": g.to_string()}}}), &[], "vg", None);
            // a group nobody is in cannot be used
            lab.add(&vg?, "vote");
        }
        advance(&mut app, &json!({"n": 1, "s": 5}));
    }
    let code = app.store_code(Box::new(ContractWrapper::new(cw_fund_distributor::contract::execute, cw_fund_distributor::contract::instantiate, cw_fund_distributor::contract::query).with_migrate(cw_fund_distributor::contract::migrate)));
    let n = cfg["dur"]["v"].as_u64().unwrap();
    let at = height(&app, &cfg["back"]);
    let fd = app.instantiate_contract(code, boss, &json!({"voting_contract": lab.addr(cfg["src"].as_str().unwrap()), "funding_period": if cfg["dur"]["k"] == "h" { json!({"height": n}) } else { json!({"time": n}) }, "distribution_height": at}), &[], "fd", Some("boss".into()))?;
    lab.add(&fd, "fd");
    let until = (cfg["dur"]["k"] == "h", n + if cfg["dur"]["k"] == "h" { app.block_info().height } else { app.block_info().time.seconds() });
    Ok(Box::new(W { app, lab, code, page: json!([]), until }))
}
fn height(app: &App, back: &Value) -> u64 {
    (app.block_info().height - back.as_u64().unwrap()).max(H0)
}
impl W {
    fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn call(&mut self, by: &str, to: &str, msg: &Value, f: &[Coin]) -> (bool, Value) {
        let (by, to) = (self.lab.addr(by), self.a(to));
        exec(&mut self.app, &by, &to, msg, f)
    }
    fn hold(&self, x: &str, w: &str) -> String {
        if is_coin(x) { bal(&self.app, &self.a(w), x) } else { cw20_bal(&self.app, &self.a(x), &self.lab.addr(w)) }
    }
    fn has(&self, x: &str, w: &str) -> u128 {
        self.hold(x, w).parse().unwrap_or(0)
    }
    fn real(&self, v: &Value) -> Vec<String> {
        strs(v).iter().map(|x| self.lab.addr(x)).collect()
    }
    fn listed(&self) -> (Vec<(String, Value)>, Vec<(String, Value)>) {
        let f = self.a("fd");
        let l = |m: Value, k: &str| { q(&self.app, &f, &m).as_array().map(|a| a.iter().map(|x| (self.lab.label(x[k].as_str().unwrap()), x["contract_balance"].clone())).collect()).unwrap_or_default() };
        (l(json!({"native_denoms": {}}), "denom"), l(json!({"c_w20_tokens": {}}), "token"))
    }
    fn ent(&self, w: &str, x: &str) -> Value {
        let m = if is_coin(x) { json!({"native_entitlement": {"sender": w, "denom": x}}) } else { json!({"c_w20_entitlement": {"sender": w, "token": self.lab.addr(x)}}) };
        let v = q(&self.app, &self.a("fd"), &m);
        if v["amount"].is_string() { v["amount"].clone() } else { v }
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        match op["o"].as_str().unwrap() {
            "fund" => {
                let q = op["q"].as_array().unwrap();
                match q.first() {
                    Some(c) if !is_coin(c["d"].as_str().unwrap()) => { let m = json!({"send": {"contract": self.lab.addr("fd"), "amount": c["n"], "msg": bin(json!({}))}}); self.call(&by, c["d"].as_str().unwrap(), &m, &[]) }
                    _ => { let f: Vec<Coin> = q.iter().map(|c| Coin { denom: st(&c["d"]), amount: u(&c["n"]) }).collect(); self.call(&by, "fd", &json!({"fund_native": {}}), &f) }
                }
            }
            "fake" => { let m = json!({"receive": {"sender": by, "amount": op["a"], "msg": bin(json!({}))}}); self.call(&by, "fd", &m, &[]) }
            "coins" => self.call(&by, "fd", &json!({"claim_natives": {"denoms": op["q"]}}), &[]),
            "toks" => { let l = self.real(&op["q"]); self.call(&by, "fd", &json!({"claim_c_w20": {"tokens": l}}), &[]) }
            "all" => self.call(&by, "fd", &json!({"claim_all": {}}), &[]),
            "again" => {
                let at = height(&self.app, &op["back"]);
                let m = json!({"redistribute_unclaimed_funds": {"distribution_height": at}});
                res(self.app.migrate_contract(Addr::unchecked(by), self.a("fd"), &m, self.code))
            }
            "give" => {
                let (x, to) = (op["x"].as_str().unwrap(), self.lab.addr("fd"));
                if is_coin(x) {
                    let m = kit::cosmwasm_std::BankMsg::Send { to_address: to, amount: vec![Coin { denom: x.into(), amount: u(&op["a"]) }] };
                    res(run(&mut self.app, &by, m.into()))
                } else { let m = json!({"transfer": {"recipient": to, "amount": op["a"]}}); self.call(&by, x, &m, &[]) }
            }
            "power" => { let g = self.a("grp"); match set_members(&mut self.app, &g, &op["m"]) { Ok(_) => (true, json!({})), Err(e) => (false, json!({"err": e.to_string()})) } }
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            "page" => {
                let l = op["limit"].as_i64().unwrap();
                let l = if l < 0 { Value::Null } else { json!(l) };
                let coins = op["k"] == "coins";
                let after = match op["after"].as_str().unwrap() { "" => Value::Null, x => json!(self.lab.addr(x)) };
                let b = json!({"sender": "alice", "start_at": after, "limit": l});
                let v = q(&self.app, &self.a("fd"), &if coins { json!({"native_entitlements": b}) } else { json!({"c_w20_entitlements": b}) });
                let k = if coins { "denom" } else { "token_contract" };
                let mut out = vec![];
                for x in v.as_array().cloned().unwrap_or_default() {
                    let n = self.lab.label(x[k].as_str().unwrap());
                    // the single query tells the same
                    out.push(if self.ent("alice", &n) == x["amount"] { json!(n) } else { json!(format!("{n}: {x}")) });
                }
                self.page = if v.is_array() { Value::Array(out) } else { v };
                (true, json!({}))
            }
            x => panic!("op {x}"),
        }
    }
    fn obs(&mut self) -> Value {
        let f = self.a("fd");
        let v = q(&self.app, &f, &json!({"voting_contract": {}}));
        let (c, t) = self.listed();
        let mut names: Vec<String> = ASSETS.iter().map(|x| x.to_string()).collect();
        for (n, _) in c.iter().chain(t.iter()) { if !names.contains(n) { names.push(n.clone()); } }
        json!({"now": clock(&self.app), "dh": v["distribution_height"].as_u64().unwrap() - H0, "total": q(&self.app, &f, &json!({"total_power": {}}))["total_power"], "page": self.page,
            "hold": map(ASSETS.iter().map(|x| (x.to_string(), map(ACCTS.iter().map(|w| (w.to_string(), json!(self.hold(x, w)))))))),
            "coins": map(c), "toks": map(t),
            "ent": map(USERS.iter().map(|w| (w.to_string(), map(names.iter().map(|x| (x.clone(), self.ent(w, x)))))))})
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let who = r.s(&USERS);
        let (c, t) = self.listed();
        let b = self.app.block_info();
        let open = if self.until.0 { b.height < self.until.1 } else { b.time.seconds() < self.until.1 };
        let (f, c1) = if open { (24, 1) } else { (1, 10) };
        let k = r.wn(&[(f, "fund"), (f / 20, "fake"), (c1, "coins"), (c1, "toks"), (c1, "all"), (4, "again"), (2, "give"), (8, "power"), (if open { 8 } else { 2 }, "adv"), (3, "page")]);
        let some = |r: &mut Rng, have: u128| match r.below(6) { 0 => have, 1 => have / 2, 2 => have.saturating_add(1), 3 => r.amt(have), _ => r.range(1, 30).min(have as u64).max(1) as u128 };
        match k {
            "fund" => {
                let by = r.s(&["alice", "bob", "boss"]);
                let q: Vec<Value> = if r.chance(1, 2) {
                    let x = r.s(&["c1", "c2"]);
                    let n = if r.chance(1, 12) { 0 } else { let h = self.has(&x, &by); some(r, h) };
                    vec![json!({"d": x, "n": n.to_string()})]
                } else {
                    ["una", "unb"].iter().filter_map(|x| if r.chance(1, 2) { let h = self.has(x, &by); let n = some(r, h); (n > 0).then(|| json!({"d": x, "n": n.to_string()})) } else { None }).collect()
                };
                json!({"o": k, "by": by, "q": q})
            }
            "fake" => json!({"o": k, "by": r.s(&["alice", "bob"]), "a": r.wn(&[(1, "0"), (3, "7"), (3, "1000000")])}),
            "coins" | "toks" => {
                let mut l: Vec<String> = if k == "coins" { &c } else { &t }.iter().map(|x| x.0.clone()).filter(|_| r.chance(2, 3)).collect();
                if r.chance(1, 8) && !l.is_empty() { let x = r.pick(&l).clone(); l.push(x); }
                if r.chance(1, 10) { l.push(r.s(if k == "coins" { &["una", "unb"] } else { &["c1", "c2", "carol"] })); }
                if l.len() > 1 && r.chance(1, 2) { l.reverse(); }
                json!({"o": k, "by": who, "q": l})
            }
            "all" => json!({"o": k, "by": who}),
            "again" => json!({"o": k, "by": r.wn(&[(6, "boss"), (1, "alice")]), "back": r.below(6)}),
            "give" => { let x = r.s(&ASSETS); let h = self.has(&x, "bob"); json!({"o": k, "by": "bob", "x": x, "a": (h / 10).max(1).to_string()}) }
            "power" => json!({"o": k, "m": members(r)}),
            "page" => json!({"o": k, "k": r.s(&["coins", "toks"]), "after": r.s(&["", "una", "unb", "c1", "c2", "alice"]), "limit": r.range(0, 4) as i64 - 1}),
            _ => { let n = r.wn(&[(1, "0"), (6, "1"), (2, "3")]).parse::<u64>().unwrap(); json!({"o": "adv", "n": n, "s": if n == 0 { 0 } else { r.range(0, 6) * n }}) }
        }
    }
}
fn members(r: &mut Rng) -> Value {
    let big = r.chance(1, 6);
    let l: Vec<&str> = USERS.iter().filter(|_| r.chance(2, 3)).copied().collect();
    map(l.iter().map(|w| (w.to_string(), json!(if big { (r.u128() as u64 / 4).to_string() } else { r.wn(&[(1, "0"), (4, "1"), (3, "2"), (2, "7"), (1, "999983")]).to_string() }))))
}
fn cfg(r: &mut Rng, _focus: &str) -> Value {
    let n = r.range(1, 4);
    let mut past: Vec<Value> = (0..n).map(|_| members(r)).collect();
    if past[0] == json!({}) { past[0] = json!({"bob": "3"}); }
    let top: u128 = *r.pick(&[1000, 1_000_000, 100_000_000_000_000_000_000_000_000_000]);
    let hold = map(ASSETS.iter().map(|x| (x.to_string(), json!({"boss": r.amt(top).max(5).to_string(), "alice": r.amt(top).max(1).to_string(), "bob": r.amt(1000).max(1).to_string()}))));
    json!({"past": past, "back": r.below(n + 1), "dur": {"k": r.s(&["h", "t"]), "v": r.range(0, 12)}, "src": if r.chance(1, 30) { "grp" } else { "vote" }, "hold": hold})
}
