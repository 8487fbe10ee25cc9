//! cw-payroll-factory and cw-admin-factory.
use kit::cosmwasm_std::{Addr, BankMsg, Binary, Coin};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "factory", cfg, new };
const USERS: [&str; 3] = ["alice", "bob", "boss"];
const NONE: u64 = 99;

struct W { app: App, lab: Labels, codes: Vec<(&'static str, u64)>, made: Vec<String>, kids: Vec<String> }
fn bin(v: Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
fn addr(l: &str) -> &str {
    if l == "X" { "x" } else { l }
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let mut app = app();
    let mut lab = Labels::default();
    let vest = || ContractWrapper::new(cw_vesting::contract::execute, cw_vesting::contract::instantiate, cw_vesting::contract::query);
    let codes = vec![("cw20", app.store_code(cw20_contract())), ("vest", app.store_code(Box::new(vest()))), ("vest2", app.store_code(Box::new(vest()))), ("none", NONE)];
    let n = u(&cfg["n"]).u128();
    for d in ["una", "ubb"] { for w in USERS { mint(&mut app, w, d, n); } }
    for t in ["tok", "fake"] {
        let a = new_cw20(&mut app, codes[0].1, &USERS.map(|w| (w, n)));
        lab.add(&a, t);
    }
    let pf = app.store_code(Box::new(ContractWrapper::new(cw_payroll_factory::contract::execute, cw_payroll_factory::contract::instantiate, cw_payroll_factory::contract::query).with_reply(cw_payroll_factory::contract::reply)));
    let af = app.store_code(Box::new(ContractWrapper::new(cw_admin_factory::contract::execute, cw_admin_factory::contract::instantiate, cw_admin_factory::contract::query).with_reply(cw_admin_factory::contract::reply)));
    let opt = |v: &Value| if v == "" { Value::Null } else { json!(addr(v.as_str().unwrap())) };
    let a = app.instantiate_contract(pf, Addr::unchecked("carol"), &json!({"owner": opt(&cfg["own"]), "vesting_code_id": codes[1].1}), &[], "pf", None)?;
    lab.add(&a, "pf");
    let a = app.instantiate_contract(af, Addr::unchecked("carol"), &json!({"admin": opt(&cfg["adm"])}), &[], "af", None)?;
    lab.add(&a, "af");
    Ok(Box::new(W { app, lab, codes, made: vec![], kids: vec![] }))
}
impl W {
    fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn code(&self, l: &str) -> u64 {
        self.codes.iter().find(|c| c.0 == l).unwrap().1
    }
    fn ask(&self, c: &str, m: Value) -> Value {
        q(&self.app, &self.a(c), &m)
    }
    fn hold(&self, d: &str, w: &str) -> String {
        if d.starts_with('u') { bal(&self.app, &self.a(w), d) } else { cw20_bal(&self.app, &self.a(d), &self.lab.addr(w)) }
    }
    fn req(&self, m: &Value) -> Value {
        let d = m["d"].as_str().unwrap();
        let denom = match d { "una" | "ubb" => json!({"native": d}), d => json!({"cw20": self.lab.addr(d)}) };
        let own = if m["own"] == "" { Value::Null } else { json!(addr(m["own"].as_str().unwrap())) };
        json!({"instantiate_msg": {"owner": own, "recipient": addr(m["who"].as_str().unwrap()), "title": "t", "description": null, "total": m["total"], "denom": denom, "schedule": "saturating_linear", "start_time": null, "vesting_duration_seconds": m["dur"], "unbonding_duration_seconds": 0}, "label": m["label"]})
    }
    fn pages(&self, k: &str, who: Option<&str>) -> Value {
        let one = |rev: bool| {
            let p = [("", 0), ("contract12", 2), ("contract6", 60)];
            json!(p.iter().map(|(w, n)| {
                let mut m = match who { None => json!({}), Some(x) => json!({k: x}) };
                if *n > 0 { m["limit"] = json!(n); m[if rev { "start_before" } else { "start_after" }] = json!(w); }
                let name = format!("list_vesting_contracts{}{}", match who { None => String::new(), Some(_) => format!("_by_{k}") }, if rev { "_reverse" } else { "" });
                let r = self.ask("pf", json!({name: m}));
                match r.as_array() { Some(q) => json!(q.iter().map(|x| json!({"a": x["contract"], "by": x["instantiator"], "who": x["recipient"]})).collect::<Vec<_>>()), None => r }
            }).collect::<Vec<_>>())
        };
        json!({"f": one(false), "r": one(true)})
    }
    /// addresses of all contracts there are
    fn all(&self) -> Vec<String> {
        let mut q: Vec<String> = (0..80).map(|i| format!("contract{i}")).collect();
        for s in ["aa", "bb", "cc", "07"] { q.push(format!("contract{s}")); }
        q.into_iter().filter(|a| self.app.wrap().query_wasm_contract_info(a).is_ok()).collect()
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        let k = op["o"].as_str().unwrap();
        let (pf, af) = (self.a("pf"), self.a("af"));
        let n = |d: &str, v: &Value| if v == "0" { vec![] } else { vec![Coin { denom: d.into(), amount: u(v) }] };
        let had = self.all();
        let r = match k {
            "nat" => { let m = json!({"instantiate_native_payroll_contract": self.req(&op["m"])}); let f = funds(&op["f"]); exec(&mut self.app, &by, &pf, &m, &f) }
            "cw" => { let m = json!({"send": {"contract": pf, "amount": op["a"], "msg": bin(json!({"instantiate_payroll_contract": self.req(&op["m"])}))}}); let t = self.a(op["t"].as_str().unwrap()); exec(&mut self.app, &by, &t, &m, &[]) }
            "rcv" => { let m = json!({"receive": {"sender": op["as"], "amount": op["a"], "msg": bin(json!({"instantiate_payroll_contract": self.req(&op["m"])}))}}); exec(&mut self.app, &by, &pf, &m, &[]) }
            "give" => {
                let (d, to) = (op["d"].as_str().unwrap(), self.lab.addr(op["to"].as_str().unwrap()));
                if d.starts_with('u') { res(run(&mut self.app, &by, BankMsg::Send { to_address: to, amount: n(d, &op["a"]) }.into())) }
                else { let t = self.a(d); exec(&mut self.app, &by, &t, &json!({"transfer": {"recipient": to, "amount": op["a"]}}), &[]) }
            }
            "code" => { let c = self.code(op["c"].as_str().unwrap()); exec(&mut self.app, &by, &pf, &json!({"update_code_id": {"vesting_code_id": c}}), &[]) }
            "new" | "new2" => {
                let good = json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": []});
                let msg = bin(if op["good"] == true { good } else { json!({"name": "token"}) });
                let mut m = json!({"instantiate_msg": msg, "code_id": self.code(op["c"].as_str().unwrap()), "label": op["label"]});
                let name = if k == "new" { "instantiate_contract_with_self_admin" } else {
                    let salt: u8 = u8::from_str_radix(op["salt"].as_str().unwrap(), 16).unwrap();
                    m["salt"] = json!(Binary::from(vec![salt]));
                    m["expect"] = if op["x"] == "" { Value::Null } else { json!(addr(op["x"].as_str().unwrap())) };
                    "instantiate2_contract_with_self_admin"
                };
                exec(&mut self.app, &by, &af, &json!({name: m}), &n("una", &op["a"]))
            }
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            _ => { let m = json!({"update_ownership": own_msg(&self.lab, op)}); exec(&mut self.app, &by, &pf, &m, &[]) }
        };
        // whatever is new on the chain
        for a in self.all() {
            if !had.contains(&a) { if k.starts_with("new") { self.kids.push(a) } else { self.made.push(a) } }
        }
        r
    }
    fn obs(&mut self) -> Value {
        let mut o = json!({"now": clock(&self.app), "own": own(&self.app, &self.lab, &self.a("pf"))});
        let id = self.ask("pf", json!({"code_id": {}})).as_u64().unwrap_or(0);
        let code = |n: u64| self.codes.iter().find(|c| c.1 == n).map(|c| c.0).unwrap_or("?");
        o["code"] = json!(code(id));
        let a = self.ask("af", json!({"admin": {}}))["admin"].clone();
        o["adm"] = json!(a.as_str().unwrap_or(""));
        o["hold"] = map(["una", "ubb", "tok", "fake"].iter().map(|d| (d.to_string(), map(["alice", "bob", "boss", "pf", "af"].iter().map(|w| (w.to_string(), json!(self.hold(d, w))))))));
        let list = self.ask("pf", json!({"list_vesting_contracts": {"limit": 50}}));
        o["made"] = json!(self.made.iter().map(|a| {
            let i = q(&self.app, &Addr::unchecked(a), &json!({"info": {}}));
            let w = q(&self.app, &Addr::unchecked(a), &json!({"ownership": {}}))["owner"].as_str().unwrap_or("").to_string();
            let t = q(&self.app, &Addr::unchecked(a), &json!({"total_to_vest": {}}));
            let dur = q(&self.app, &Addr::unchecked(a), &json!({"vest_duration": {}})).as_str().map(|x| x.parse::<u64>().unwrap()).unwrap_or(0);
            let c = self.app.wrap().query_wasm_contract_info(a).unwrap();
            let d = i["denom"]["native"].as_str().map(|x| x.to_string()).unwrap_or_else(|| self.lab.label(i["denom"]["cw20"].as_str().unwrap_or("")));
            let by = list.as_array().and_then(|q| q.iter().find(|x| x["contract"] == *a).map(|x| x["instantiator"].clone())).unwrap_or(json!(""));
            let admin = c.admin.unwrap_or_default();
            // the owner of a payment is the admin of its contract
            json!({"a": a, "by": by, "who": i["recipient"], "own": if admin == w { w } else { format!("{w} {admin}") }, "total": t, "d": d, "dur": dur, "code": code(c.code_id), "label": self.label(a), "st": i["status"], "bal": self.hold(&d, a)})
        }).collect::<Vec<_>>());
        o["kids"] = json!(self.kids.iter().map(|a| {
            let c = self.app.wrap().query_wasm_contract_info(a).unwrap();
            json!({"a": a, "admin": c.admin.unwrap_or_default(), "by": self.lab.label(&c.creator), "label": self.label(a), "bal": self.hold("una", a)})
        }).collect::<Vec<_>>());
        o["all"] = self.pages("", None);
        for (f, k) in [("inst", "instantiator"), ("rec", "recipient")] { o[f] = map(["alice", "bob", "boss", "carol"].iter().map(|w| (w.to_string(), self.pages(k, Some(w))))); }
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let k = r.wn(&[(26, "nat"), (26, "cw"), (4, "rcv"), (4, "give"), (5, "code"), (10, "new"), (14, "new2"), (3, "offer"), (4, "accept"), (1, "renounce"), (3, "adv")]);
        let o = own(&self.app, &self.lab, &self.a("pf"));
        let code = self.ask("pf", json!({"code_id": {}})).as_u64().unwrap_or(0);
        let any = r.s(&USERS);
        let owner = { let x = o["owner"].as_str().unwrap_or(""); if x.is_empty() || r.chance(1, 6) { any.clone() } else { x.to_string() } };
        let kind = if k == "cw" || k == "rcv" { r.wn(&[(8, "tok"), (3, "fake"), (1, "una")]).to_string() } else { r.wn(&[(6, "una"), (5, "ubb"), (1, "tok")]).to_string() };
        let h: u128 = self.hold(&kind, &owner).parse().unwrap_or(0);
        let total = match r.below(12) { 0 => h + 1, 1 => 0, 2 => h, _ => r.amt(h / 4).max(1) };
        let m = json!({"total": total.to_string(), "dur": if r.chance(1, 30) { 0 } else { r.range(1, 500) }, "who": r.wn(&[(5, "alice"), (5, "bob"), (5, "carol"), (1, "boss"), (1, "X")]), "d": kind, "own": r.wn(&[(3, ""), (3, "boss"), (3, "alice"), (1, "X")]), "label": r.wn(&[(9, "pay"), (9, "vest"), (1, "")])});
        let adm = self.ask("af", json!({"admin": {}}))["admin"].as_str().map(|x| x.to_string());
        let admin = match adm { Some(a) if !r.chance(1, 6) => a, _ => any.clone() };
        let c = if r.chance(1, 12) { "none" } else { "cw20" };
        let money = if r.chance(1, 3) { r.amt(self.hold("una", &admin).parse::<u128>().unwrap_or(0) / 5) } else { 0 };
        let kid = json!({"o": k, "by": admin, "c": c, "good": !r.chance(1, 12), "label": r.wn(&[(20, "kid"), (20, "dao"), (1, "")]), "a": money.to_string()});
        match k {
            "nat" => {
                let d = if r.chance(1, 15) { "una".to_string() } else { kind };
                let n = match r.below(15) { 0 => total + 1, 1 => total.saturating_sub(1), _ => total };
                let mut f = vec![];
                if n > 0 && d.starts_with('u') { f.push(json!({"d": d, "a": n.to_string()})); }
                if r.chance(1, 25) { f = if d == "ubb" { vec![f.pop().unwrap_or(json!({"d": "ubb", "a": "1"})), json!({"d": "una", "a": "1"})] } else { vec![] }; }
                f.sort_by_key(|x| x["d"].as_str().unwrap_or("").to_string());
                json!({"o": k, "by": owner, "m": m, "f": f})
            }
            "cw" => { let t = if r.chance(1, 12) { "fake".to_string() } else if kind == "una" { "tok".to_string() } else { kind }; let a = match r.below(15) { 0 => total + 1, 1 => total.saturating_sub(1), _ => total }; json!({"o": k, "by": owner, "t": t, "a": a.to_string(), "m": m}) }
            "rcv" => json!({"o": k, "by": any, "as": owner, "a": total.to_string(), "m": m}),
            "give" => { let d = r.s(&["una", "tok", "fake", "tok"]); let h: u128 = self.hold(&d, &any).parse().unwrap_or(0); json!({"o": k, "by": any, "d": d, "to": if r.chance(2, 3) { "pf" } else { "af" }, "a": (h / 4).max(1).to_string()}) }
            "code" => { let ok = code == NONE || code == self.code("cw20") || r.chance(3, 4); let c = r.s(if ok { &["vest", "vest2"] } else { &["cw20", "none"] }); json!({"o": k, "by": owner, "c": c}) }
            "new" => kid,
            "new2" => { let mut x = kid; let s = r.s(&["aa", "bb", "cc", "07"]); x["x"] = match r.below(4) { 0 => json!(r.s(&["contractaa", "X", "contract7"])), 1 => json!(""), _ => json!(format!("contract{s}")) }; x["salt"] = json!(s); x }
            "adv" => json!({"o": k, "n": r.range(0, 3), "s": r.range(0, 10)}),
            _ => gown(r, k, &o, &any, &USERS, &clock(&self.app)),
        }
    }
}
impl W {
    fn label(&self, a: &str) -> String {
        self.app.contract_data(&Addr::unchecked(a)).map(|c| c.label).unwrap_or_default()
    }
}
fn cfg(r: &mut Rng, _focus: &str) -> Value {
    let n = if r.chance(1, 5) { r.amt(1 << 90) } else { r.range(20, 3000) as u128 };
    let who = |r: &mut Rng| r.wn(&[(8, ""), (8, "boss"), (4, "alice"), (1, "X")]);
    let own = who(r);
    let adm = who(r);
    json!({"own": own, "adm": adm, "n": n.to_string()})
}
