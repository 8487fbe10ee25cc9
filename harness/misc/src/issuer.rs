//! cw-tokenfactory-issuer, with a token factory whose denominations have a before-send listener.
use kit::chain::pb;
use kit::cosmwasm_std::{self, Addr, BankMsg, Binary, Coin, CosmosMsg, Empty, QueryRequest};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "issuer", cfg, new };
const ACCTS: [&str; 6] = ["alice", "bob", "boss", "carol", "iss", "iss2"];
const ASKED: [&str; 6] = ["alice", "bob", "boss", "carol", "iss", "w02"];

struct W { app: App, lab: Labels, denom: String }
fn factory(t: &str, f: &[(u32, &[u8])]) -> CosmosMsg {
    CosmosMsg::Stargate { type_url: format!("/osmosis.tokenfactory.v1beta1.{t}"), value: Binary::from(pb(f)) }
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let mut app = app();
    let mut lab = Labels::default();
    let c = ContractWrapper::new(cw_tokenfactory_issuer::contract::execute, cw_tokenfactory_issuer::contract::instantiate, cw_tokenfactory_issuer::contract::query)
        .with_reply(cw_tokenfactory_issuer::contract::reply).with_sudo(cw_tokenfactory_issuer::contract::sudo);
    let code = app.store_code(Box::new(c));
    let boss = Addr::unchecked("boss");
    let m = if cfg["kind"] == "new" { json!({"new_token": {"subdenom": "tok"}}) } else {
        run(&mut app, "boss", factory("MsgCreateDenom", &[(1, b"boss"), (2, b"tok")]))?;
        mint(&mut app, "boss", "factory/boss/tok", u(&cfg["n"]).u128());
        json!({"existing_token": {"denom": "factory/boss/tok"}})
    };
    let iss = app.instantiate_contract(code, boss, &m, &[], "i", None)?;
    lab.add(&iss, "iss");
    let two = app.instantiate_contract(code, Addr::unchecked("carol"), &json!({"new_token": {"subdenom": "two"}}), &[], "i", None)?;
    lab.add(&two, "iss2");
    let denom = q(&app, &iss, &json!({"denom": {}}))["denom"].as_str().unwrap_or("").to_string();
    anyhow::ensure!(denom == format!("factory/{}/tok", if cfg["kind"] == "new" { iss.as_str() } else { "boss" }), "denom {denom}");
    Ok(Box::new(W { app, lab, denom }))
}
impl W {
    fn a(&self, l: &Value) -> String {
        match l.as_str().unwrap() { "X" => "x".to_string(), l => self.lab.addr(l) }
    }
    fn ask(&self, m: Value) -> Value {
        q(&self.app, &Addr::unchecked(self.lab.addr("iss")), &m)
    }
    fn pages(&self, k: &str, f: &str, item: &dyn Fn(&Value) -> Value) -> Value {
        let p = [json!({}), json!({"start_after": "w11", "limit": 3}), json!({"limit": 50}), json!({"start_after": "carol", "limit": 4})];
        json!(p.iter().map(|m| { let r = self.ask(json!({k: m})); match r[f].as_array() { Some(x) => json!(x.iter().map(item).collect::<Vec<_>>()), None => r } }).collect::<Vec<_>>())
    }
    fn den(&self) -> Value {
        let rq: QueryRequest<Empty> = QueryRequest::Stargate { path: "/kit/denom".into(), data: Binary::from(pb(&[(1, self.denom.as_bytes())])) };
        let v: Value = self.app.wrap().query(&rq).unwrap();
        let l = |i: usize| self.lab.label(v[i].as_str().unwrap());
        json!({"admin": l(0), "hook": l(1), "meta": l(2)})
    }
    fn one(&self, by: &str, op: &Value) -> CosmosMsg {
        let to = |k: &str| self.a(&op[k]);
        let m = match op["o"].as_str().unwrap() {
            "mint" => json!({"mint": {"to_address": to("to"), "amount": op["a"]}}),
            "burn" => json!({"burn": {"from_address": to("from"), "amount": op["a"]}}),
            "sm" => json!({"set_minter_allowance": {"address": to("w"), "allowance": op["a"]}}),
            "sb" => json!({"set_burner_allowance": {"address": to("w"), "allowance": op["a"]}}),
            "adm" => json!({"update_token_factory_admin": {"new_admin": to("to")}}),
            "meta" => { let n: Vec<&str> = op["n"].as_str().unwrap().split('|').collect(); json!({"set_denom_metadata": {"metadata": {"description": n[0], "denom_units": [{"denom": n[1], "exponent": "6", "aliases": []}], "base": self.denom, "display": n[2], "name": n[3], "symbol": n[4]}}}) }
            "hook" => json!({"set_before_send_hook": {"cosmwasm_address": to("to")}}),
            "force" => json!({"force_transfer": {"from_address": to("from"), "to_address": to("to"), "amount": op["a"]}}),
            "freeze" => json!({"freeze": {"status": op["b"]}}),
            "allow" => json!({"allow": {"address": to("w"), "status": op["b"]}}),
            "deny" => json!({"deny": {"address": to("w"), "status": op["b"]}}),
            "send" => return BankMsg::Send { to_address: to("to"), amount: vec![Coin { denom: self.denom.clone(), amount: u(&op["a"]) }] }.into(),
            "chadm" => return factory("MsgChangeAdmin", &[(1, by.as_bytes()), (2, self.denom.as_bytes()), (3, to("to").as_bytes())]),
            _ => json!({"update_ownership": own_msg(&self.lab, op)}),
        };
        cosmwasm_std::WasmMsg::Execute { contract_addr: self.lab.addr("iss"), msg: Binary::from(m.to_string().into_bytes()), funds: vec![] }.into()
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        match op["o"].as_str().unwrap() {
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            "many" => {
                let ms: Vec<CosmosMsg> = (1..=op["n"].as_u64().unwrap()).map(|i| self.one(&by, &json!({"o": op["l"], "w": format!("w{i:02}"), "a": "7", "b": true}))).collect();
                match self.app.execute_multi(Addr::unchecked(by), ms) { Ok(_) => (true, json!({})), Err(e) => (false, json!({"err": e.root_cause().to_string()})) }
            }
            _ => { let m = self.one(&by, op); res(run(&mut self.app, &by, m)) }
        }
    }
    fn obs(&mut self) -> Value {
        let mut o = json!({"now": clock(&self.app), "own": own(&self.app, &self.lab, &Addr::unchecked(self.lab.addr("iss")))});
        let l = |x: &Value| json!(self.lab.label(x.as_str().unwrap_or("")));
        let f = self.ask(json!({"before_send_hook_info": {}}));
        o["feat"] = json!({"on": f["advanced_features_enabled"], "a": l(&f["hook_contract_address"])});
        o["frozen"] = self.ask(json!({"is_frozen": {}}))["is_frozen"].clone();
        o["den"] = self.den();
        o["hold"] = map(ACCTS.iter().map(|w| (w.to_string(), json!(bal(&self.app, &Addr::unchecked(self.lab.addr(w)), &self.denom)))));
        let al = |x: &Value| json!({"w": l(&x["address"]), "a": x["allowance"]});
        let st = |x: &Value| if x["status"] == true { l(&x["address"]) } else { x.clone() };
        o["mint"] = self.pages("mint_allowances", "allowances", &al);
        o["burn"] = self.pages("burn_allowances", "allowances", &al);
        o["allow"] = self.pages("allowlist", "allowlist", &st);
        o["deny"] = self.pages("denylist", "denylist", &st);
        o["who"] = map(ASKED.iter().map(|w| { let m = json!({"address": self.lab.addr(w)});
            (w.to_string(), json!({"m": self.ask(json!({"mint_allowance": m}))["allowance"], "b": self.ask(json!({"burn_allowance": m}))["allowance"], "a": self.ask(json!({"is_allowed": m}))["status"], "d": self.ask(json!({"is_denied": m}))["status"]}))}));
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let o = self.obs();
        let den = &o["den"];
        let mine = den["admin"] == "iss";
        let hooked = o["feat"]["on"] == true;
        let h = if hooked { 14 } else { 1 };
        let k = r.wn(&[(30, "mint"), (20, "burn"), (14, "sm"), (10, "sb"), (if mine { 2 } else { 1 }, "adm"), (if mine { 1 } else { 40 }, "chadm"), (3, "meta"), (if hooked { 3 } else { 14 }, "hook"), (14, "force"), (h, "freeze"), (h, "deny"), (h, "allow"),
            (5, "offer"), (6, "accept"), (1, "renounce"), (30, "send"), (2, "many"), (4, "adv")]);
        let who = r.s(&["alice", "bob", "boss", "carol"]);
        let owner = { let x = o["own"]["owner"].as_str().unwrap(); if x.is_empty() || r.chance(1, 8) { who.clone() } else { x.to_string() } };
        let num = |v: &Value| v.as_str().and_then(|x| x.parse::<u128>().ok()).unwrap_or(0);
        let any = { let x = r.s(&ACCTS); if r.chance(1, 30) { "X".to_string() } else { x } };
        let acct = r.s(&ACCTS);
        let part = |r: &mut Rng, n: u128| match r.below(8) { 0 => n + 1, 1 | 2 => n, 3 => n / 2, 4 => 0, _ => r.amt(n) }.to_string();
        // someone with an allowance
        let of = |r: &mut Rng, f: &str| { let q: Vec<&str> = ["alice", "bob", "boss", "carol"].into_iter().filter(|w| num(&o["who"][*w][f]) > 0).collect(); if q.is_empty() || r.chance(1, 8) { who.clone() } else { r.s(&q) } };
        let rich = |r: &mut Rng| { let q: Vec<&str> = ACCTS.into_iter().filter(|w| num(&o["hold"][*w]) > 0).collect(); if q.is_empty() || r.chance(1, 8) { acct.clone() } else { r.s(&q) } };
        match k {
            "mint" => { let by = of(r, "m"); let a = part(r, num(&o["who"][&by]["m"])); json!({"o": k, "by": by, "to": any, "a": a}) }
            "burn" => { let by = of(r, "b"); let f = if r.chance(1, 30) { "X".to_string() } else { rich(r) }; let n = num(&o["who"][&by]["b"]); let m = num(&o["hold"][&f]); let x = if m > 0 && r.chance(2, 3) { m.min(n) } else { n }; let a = part(r, x); json!({"o": k, "by": by, "from": f, "a": a}) }
            "sm" | "sb" => { let n = if r.chance(1, 5) { 0 } else if r.chance(1, 8) { r.amt(1 << 90) } else { r.range(1, 40) as u128 }; json!({"o": k, "by": owner, "w": any, "a": n.to_string()}) }
            "adm" => json!({"o": k, "by": owner, "to": if r.chance(1, 12) { "X".to_string() } else { who }}),
            "chadm" => { let a = den["admin"].as_str().unwrap(); json!({"o": k, "by": if ["alice", "bob", "boss", "carol"].contains(&a) && r.chance(7, 8) { a.to_string() } else { who }, "to": if r.chance(6, 7) { "iss".to_string() } else { acct }}) }
            "meta" => json!({"o": k, "by": owner, "n": r.s(&["d|u|v|n|S", "a|b|c|d|e", "|unit||name|sym"])}),
            "hook" => json!({"o": k, "by": owner, "to": r.wn(&[(8, "iss"), (2, ""), (2, "iss2"), (1, "X")])}),
            "force" => { let f = rich(r); let a = part(r, num(&o["hold"][&f])); json!({"o": k, "by": owner, "from": f, "to": acct, "a": a}) }
            "freeze" => json!({"o": k, "by": owner, "b": r.chance(1, 2)}),
            "deny" | "allow" => json!({"o": k, "by": owner, "w": any, "b": r.chance(1, 2)}),
            "send" => { let q: Vec<&str> = ["alice", "bob", "boss", "carol"].into_iter().filter(|w| num(&o["hold"][*w]) > 0).collect(); let by = if q.is_empty() { who } else { r.s(&q) }; let n = num(&o["hold"][&by]); let a = match r.below(6) { 0 => n + 1, 1 => n, _ => r.amt(n) }.max(1); json!({"o": k, "by": by, "to": acct, "a": a.to_string()}) }
            "many" => json!({"o": k, "by": owner, "l": r.s(&["sm", "sb", "allow", "deny"]), "n": r.range(1, 35)}),
            "adv" => json!({"o": k, "n": r.range(0, 3), "s": r.range(0, 10)}),
            _ => gown(r, k, &o["own"], &who, &["alice", "bob", "boss"], &clock(&self.app)),
        }
    }
}
fn cfg(r: &mut Rng, _focus: &str) -> Value {
    let kind = r.wn(&[(2, "new"), (1, "old")]);
    let n = r.amt(100);
    json!({"kind": kind, "n": if kind == "old" { n.to_string() } else { "0".into() }})
}
