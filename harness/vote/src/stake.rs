//! Voting power from staked fungible tokens: native (dao-voting-token-staked) and
//! cw20 (dao-voting-cw20-staked over cw20-stake).
use crate::common::*;
use kit::cosmwasm_std::{Addr, BankMsg, Coin, CosmosMsg};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, mock, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "stake", cfg, new };
pub const USERS: [&str; 4] = ["alice", "bob", "carol", "dave"];
const DENOM: &str = "ugov";

pub struct W {
    pub app: App,
    /// the code of the module, and of its older release
    pub code: [u64; 2],
    /// whether the module is renewed
    pub ren: bool,
    /// what "ugov" is called on the chain
    pub denom: String,
    pub kind: String,
    pub mode: String,
    pub lab: Labels,
    pub at: Value,
    pub page: Value,
    /// heights the clock has stopped at
    pub seen: Vec<i64>,
}
fn cw20_init(cfg: &Value) -> Value {
    // some balances are given in two parts
    let two = cfg["two"].as_str().unwrap_or("").to_string();
    let mut v = vec![];
    for p in USERS {
        let a = u(&cfg["bals"][p]).u128();
        if a == 0 { continue; }
        if p == two && a > 1 { v.push(json!({"address": p, "amount": (a / 3).max(1).to_string()})); v.push(json!({"address": p, "amount": (a - (a / 3).max(1)).to_string()})); }
        else { v.push(json!({"address": p, "amount": a.to_string()})); }
    }
    if v.len() > 1 { let l = v.pop().unwrap(); v.insert(0, l); }
    Value::Array(v)
}
fn dbal(cfg: &Value) -> Value {
    match st(&cfg["dbal"]).as_str() { "0" if cfg["dnull"] == true => Value::Null, _ => cfg["dbal"].clone() }
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let kind = st(&cfg["kind"]);
    let mut app = app();
    let mut lab = Labels::default();
    let mock_code = app.store_code(Box::new(mock::Mock));
    let cw20 = app.store_code(cw20_contract());
    let core = core_code(&mut app);
    let stk = app.store_code(Box::new(ContractWrapper::new(cw20_stake::contract::execute, cw20_stake::contract::instantiate, cw20_stake::contract::query)));
    listeners(&mut app, mock_code, &mut lab);
    let fake = new_cw20(&mut app, cw20, &[("alice", 100), ("bob", 100)]);
    lab.add(&fake, "fake");
    let src = st(&cfg["src"]);
    let code;
    let vote = if kind == "token" {
        let btsg = src == "btsg";
        if src != "new" && !btsg { for p in USERS { mint(&mut app, p, DENOM, u(&cfg["bals"][p]).u128()); } }
        let iss = app.store_code(Box::new(ContractWrapper::new(cw_tokenfactory_issuer::contract::execute, cw_tokenfactory_issuer::contract::instantiate, cw_tokenfactory_issuer::contract::query)
            .with_reply(cw_tokenfactory_issuer::contract::reply).with_sudo(cw_tokenfactory_issuer::contract::sudo)));
        mint(&mut app, "alice", "uother", 50);
        let fac = app.store_code(Box::new(Factory));
        let f = app.instantiate_contract(fac, Addr::unchecked("deployer"), &json!({}), &[], "f", None)?;
        lab.add(&f, "factory");
        let fc = app.store_code(Box::new(ContractWrapper::new(btsg_ft_factory::contract::execute, btsg_ft_factory::contract::instantiate, btsg_ft_factory::contract::query).with_reply(btsg_ft_factory::contract::reply)));
        let fan = app.instantiate_contract(fc, Addr::unchecked("deployer"), &json!({}), &[], "fan", None)?;
        lab.add(&fan, "fan");
        let dao_addr = future(&mut app, mock_code, 1);
        if src != "new" && !btsg { mint(&mut app, &dao_addr, DENOM, u(&cfg["dbal"]).u128()); }
        code = renewable(&mut app, || Box::new(ContractWrapper::new(dao_voting_token_staked::contract::execute, dao_voting_token_staked::contract::instantiate, dao_voting_token_staked::contract::query).with_reply(dao_voting_token_staked::contract::reply).with_migrate(dao_voting_token_staked::contract::migrate)));
        let issue = json!({"issue": {"symbol": DENOM, "name": "Gov", "max_supply": cfg["max"], "uri": "ipfs", "initial_balances": cw20_init(cfg), "initial_dao_balance": dbal(cfg)}});
        // nobody but a DAO's voting module issues
        anyhow::ensure!(src != "btsg" || !exec(&mut app, "alice", &fan, &issue, &[]).0, "issued for nobody");
        let call = |data: Value| json!({"factory": b(&json!({"execute": {"contract_addr": f.to_string(), "msg": b(&json!({"data": data})), "funds": []}}))});
        let info = match src.as_str() {
            "existing" => json!({"existing": {"denom": DENOM}}),
            "new" => json!({"new": {"token_issuer_code_id": iss, "subdenom": DENOM, "initial_balances": cw20_init(cfg), "initial_dao_balance": dbal(cfg),
                "metadata": if cfg["meta"] == "none" { Value::Null } else { json!({"name": "Gov", "description": "the token", "symbol": "GOV", "display": "gov", "additional_denom_units": if cfg["meta"] == "plain" { Value::Null } else { json!([{"denom": "gov", "exponent": "6", "aliases": ["g"]}, {"denom": "mgov", "exponent": "3", "aliases": []}]) }}) }}}),
            "factory" => call(json!({"denom": DENOM, "token_contract": f.to_string(), "module_instantiate_callback": null})),
            "btsg" => json!({"factory": b(&json!({"execute": {"contract_addr": fan.to_string(), "msg": b(&issue), "funds": []}}))}),
            "nodata" => call(Value::Null),
            "badmsg" => json!({"factory": b(&json!({"migrate": {"contract_addr": f.to_string(), "new_code_id": 1, "msg": b(&json!({}))}}))}),
            _ => call(json!({"denom": "unminted", "token_contract": null, "module_instantiate_callback": null})),
        };
        modinfo(code[0], json!({"token_info": info, "unstaking_duration": dur(&cfg["dur"]), "active_threshold": thr(&cfg["act"])}))
    } else {
        code = renewable(&mut app, || Box::new(ContractWrapper::new(dao_voting_cw20_staked::contract::execute, dao_voting_cw20_staked::contract::instantiate, dao_voting_cw20_staked::contract::query).with_reply(dao_voting_cw20_staked::contract::reply).with_migrate(dao_voting_cw20_staked::contract::migrate)));
        let info = if src == "new" {
            json!({"new": {"code_id": cw20, "label": "t", "name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": cw20_init(cfg), "marketing": null,
                "staking_code_id": stk, "unstaking_duration": dur(&cfg["dur"]), "initial_dao_balance": dbal(cfg)}})
        } else {
            let v: Vec<(&str, u128)> = USERS.iter().map(|p| (*p, u(&cfg["bals"][p]).u128())).collect();
            let t = new_cw20(&mut app, cw20, &v);
            let staking = if src == "fresh" { json!({"new": {"staking_code_id": stk, "unstaking_duration": dur(&cfg["dur"])}}) } else {
                let on = if src == "mismatch" { &fake } else { &t };
                let s = app.instantiate_contract(stk, Addr::unchecked("boss"), &json!({"owner": "boss", "token_address": on.to_string(), "unstaking_duration": dur(&cfg["dur"])}), &[], "s", None)?;
                json!({"existing": {"staking_contract_address": s.to_string()}})
            };
            json!({"existing": {"address": t.to_string(), "staking_contract": staking}})
        };
        modinfo(code[0], json!({"token_info": info, "active_threshold": thr(&cfg["act"])}))
    };
    dao(&mut app, core, mock_code, vote, &mut lab)?;
    let mut denom = DENOM.to_string();
    if kind == "cw20" {
        let v = Addr::unchecked(lab.addr("vote"));
        let (t, s) = (q(&app, &v, &json!({"token_contract": {}})), q(&app, &v, &json!({"staking_contract": {}})));
        lab.add(&Addr::unchecked(st(&t)), "token");
        lab.add(&Addr::unchecked(st(&s)), "pool");
    } else {
        let v = lab.addr("vote");
        if src == "new" {
            let t = st(&q(&app, &Addr::unchecked(&v), &json!({"token_contract": {}})));
            lab.add(&Addr::unchecked(&t), "issuer");
            denom = format!("factory/{t}/{DENOM}");
        }
        if src == "btsg" { denom = format!("ft{DENOM}"); }
        lab.0.push((v, "pool".into()));
    }
    let mut w = W { app, code, ren: cfg["renew"] == true, denom, kind, mode: cfg["mode"].as_str().unwrap_or("").into(), lab, at: json!({}), page: json!([]), seen: vec![0] };
    w.at = at(&w.app, &w.lab, &USERS, 0);
    Ok(Box::new(w))
}
impl W {
    pub fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn tok(&self) -> bool {
        self.kind == "token"
    }
    pub fn bal(&self, who: &str) -> String {
        if self.tok() { bal(&self.app, &self.a(who), &self.denom) } else { cw20_bal(&self.app, &self.a("token"), &self.lab.addr(who)) }
    }
    fn supply(&self) -> String {
        if self.tok() { self.app.wrap().query_supply(self.denom.as_str()).map(|c| c.amount.to_string()).unwrap_or_default() }
        else { q(&self.app, &self.a("token"), &json!({"token_info": {}}))["total_supply"].as_str().unwrap_or("?").into() }
    }
    /// what the founding made, and who governs it
    fn made(&self) -> Value {
        let adm = |l: &str| admin_of(&self.app, &self.lab, l);
        let mut o = json!({"vote": adm("vote")});
        if self.tok() {
            if self.denom == DENOM { return o; }
            if self.denom == format!("ft{DENOM}") {
                let d: Value = den(&self.app, &self.denom);
                // the factory keeps nothing about it
                let left = self.app.wrap().query_wasm_raw(self.lab.addr("fan"), b"cft".to_vec()).unwrap();
                let l = |i: usize| self.lab.label(d[i].as_str().unwrap_or("?"));
                o["fan"] = json!({"auth": l(0), "minter": l(3), "cap": d[4], "meta": d[2], "left": left.is_some()});
                return o;
            }
            let i = self.a("issuer");
            let ask = |m: Value| q(&self.app, &i, &m);
            let d: Value = den(&self.app, &self.denom);
            o["issuer"] = json!({"adm": adm("issuer"), "own": own(&self.app, &self.lab, &i), "denom": ask(json!({"denom": {}}))["denom"] == self.denom.as_str(), "frozen": ask(json!({"is_frozen": {}}))["is_frozen"],
                "minters": ask(json!({"mint_allowances": {}}))["allowances"], "burners": ask(json!({"burn_allowances": {}}))["allowances"],
                "chain": [self.lab.label(d[0].as_str().unwrap_or("?")), self.lab.label(d[1].as_str().unwrap_or("?")), st(&d[2]).replace(&self.denom, "UGOV")]});
        } else {
            let t = q(&self.app, &self.a("token"), &json!({"token_info": {}}));
            let m = q(&self.app, &self.a("token"), &json!({"minter": {}}));
            let c = q(&self.app, &self.a("pool"), &json!({"get_config": {}}));
            o["token"] = json!({"adm": adm("token"), "name": t["name"], "sym": t["symbol"], "dec": t["decimals"].to_string(), "minter": self.lab.label(m["minter"].as_str().unwrap_or("")), "cap": m["cap"].to_string()});
            o["pool"] = json!({"adm": adm("pool"), "token": self.lab.label(c["token_address"].as_str().unwrap_or("?"))});
        }
        o
    }
    pub fn call(&mut self, by: &str, to: &str, msg: &Value, f: &[Coin]) -> (bool, Value) {
        let (by, to) = (self.lab.addr(by), self.a(to));
        exec(&mut self.app, &by, &to, msg, f)
    }
    fn owner(&self) -> String {
        if self.tok() { "dao".into() } else {
            let o = q(&self.app, &self.a("pool"), &json!({"ownership": {}}));
            o["owner"].as_str().map(|x| self.lab.label(x)).unwrap_or_default()
        }
    }
    fn stakers(&self, after: Value, limit: Value) -> Value {
        let v = q(&self.app, &self.a("pool"), &json!({"list_stakers": {"start_after": after, "limit": limit}}));
        v["stakers"].as_array().map(|a| Value::Array(a.iter().map(|e| json!([e["address"], e["balance"]])).collect())).unwrap_or(v)
    }
}
pub fn told(m: &Value) -> String {
    let x = &m["stake_change_hook"];
    let (k, e) = if x.get("stake").is_some() { ("stake", &x["stake"]) } else { ("unstake", &x["unstake"]) };
    format!("{k}:{}:{}", e["addr"].as_str().unwrap_or("?"), e["amount"].as_str().unwrap_or("?"))
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        match op["o"].as_str().unwrap() {
            "stake" if self.tok() => { let f: Vec<Coin> = funds(&op["funds"]).into_iter().map(|c| if c.denom == DENOM { Coin { denom: self.denom.clone(), ..c } } else { c }).collect(); self.call(&by, "pool", &json!({"stake": {}}), &f) }
            "stake" | "fund" | "junk" => {
                let inner = match op["o"].as_str().unwrap() { "stake" => json!({"stake": {}}), "fund" => json!({"fund": {}}), _ => json!({"nonsense": {}}) };
                let m = json!({"send": {"contract": self.lab.addr("pool"), "amount": op["a"], "msg": b(&inner)}});
                self.call(&by, op["t"].as_str().unwrap(), &m, &[])
            }
            "recv" => self.call(&by, "pool", &json!({"receive": {"sender": by, "amount": op["a"], "msg": b(&json!({"stake": {}}))}}), &[]),
            "unstake" => self.call(&by, "pool", &json!({"unstake": {"amount": op["a"]}}), &[]),
            "burst" => {
                let to = self.lab.addr("pool");
                let n = op["n"].as_u64().unwrap();
                let msgs = (0..n).map(|_| wexec(&to, &json!({"unstake": {"amount": "1"}}), vec![])).collect();
                multi(&mut self.app, &by, msgs)
            }
            "claim" => self.call(&by, "pool", &json!({"claim": {}}), &[]),
            "dur" => { let m = json!({"update_config": {"duration": dur(&op["d"])}}); self.call(&by, "pool", &m, &[]) }
            "thr" => { let m = json!({"update_active_threshold": {"new_threshold": thr(&op["t"])}}); self.call(&by, "vote", &m, &[]) }
            "hook" => {
                let k = if op["add"] == true { "add_hook" } else { "remove_hook" };
                let m = json!({k: {"addr": self.lab.addr(op["who"].as_str().unwrap())}});
                self.call(&by, "pool", &m, &[])
            }
            "own" => {
                let act = match op["act"].as_str().unwrap() { "transfer" => json!({"transfer_ownership": {"new_owner": self.lab.addr(op["who"].as_str().unwrap()), "expiry": null}}), "accept" => json!("accept_ownership"), _ => json!("renounce_ownership") };
                self.call(&by, "pool", &json!({"update_ownership": act}), &[])
            }
            "renew" => { let (c, d) = (self.a("vote"), self.lab.addr("dao")); let by = self.lab.addr(&by); renew(&mut self.app, self.code, &c, &d, &by, op["from"].as_str().unwrap()) }
            "fail" => self.call("deployer", op["who"].as_str().unwrap(), &json!({"set_fail": op["on"]}), &[]),
            "move" => {
                let (from, to) = (self.lab.addr(&by), self.lab.addr(op["to"].as_str().unwrap()));
                if self.tok() {
                    let m: CosmosMsg = BankMsg::Send { to_address: to, amount: vec![Coin { denom: self.denom.clone(), amount: u(&op["a"]) }] }.into();
                    res(run(&mut self.app, &from, m))
                } else { self.call(&by, "token", &json!({"transfer": {"recipient": to, "amount": op["a"]}}), &[]) }
            }
            "mint" => {
                if self.tok() { mint(&mut self.app, op["to"].as_str().unwrap(), &self.denom.clone(), u(&op["a"]).u128()); (true, json!({})) }
                else {
                    let m = q(&self.app, &self.a("token"), &json!({"minter": {}}));
                    let m = self.lab.label(m["minter"].as_str().unwrap());
                    self.call(&m, "token", &json!({"mint": {"recipient": op["to"], "amount": op["a"]}}), &[])
                }
            }
            "burn" => {
                if self.tok() { burn(&by, &mut self.app, vec![Coin { denom: self.denom.clone(), amount: u(&op["a"]) }]) }
                else { self.call(&by, "token", &json!({"burn": {"amount": op["a"]}}), &[]) }
            }
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            "at" => { self.at = at(&self.app, &self.lab, &USERS, op["h"].as_i64().unwrap()); (true, json!({})) }
            "page" => {
                let l = op["limit"].as_i64().unwrap();
                let lim = if l < 0 { Value::Null } else { json!(l) };
                let after = if op["after"] == "" { Value::Null } else { op["after"].clone() };
                self.page = self.stakers(after, lim);
                (true, json!({}))
            }
            x => panic!("op {x}"),
        }
    }
    fn obs(&mut self) -> Value {
        let (p, t) = powers(&self.app, &self.lab, &USERS, None);
        let mut o = json!({"now": clock(&self.app), "power": p, "total": t, "at": self.at.clone(), "page": self.page.clone(), "supply": self.supply()});
        o["stakers"] = self.stakers(Value::Null, Value::Null);
        o["wal"] = map(USERS.iter().chain(["dao", "pool"].iter()).map(|w| (w.to_string(), json!(self.bal(w)))));
        let v = self.a("vote");
        let pool = self.a("pool");
        o["act"] = jthr(&q(&self.app, &v, &json!({"active_threshold": {}})));
        o["active"] = q(&self.app, &v, &json!({"is_active": {}}))["active"].clone();
        let c = q(&self.app, &pool, &json!({"get_config": {}}));
        o["dur"] = jdur(&c["unstaking_duration"]);
        o["claims"] = map(USERS.iter().map(|w| {
            let x = q(&self.app, &pool, &json!({"claims": {"address": w}}));
            (w.to_string(), x["claims"].as_array().map(|a| Value::Array(a.iter().map(|e| json!({"a": e["amount"], "e": jexp(&e["release_at"])})).collect())).unwrap_or(x))
        }));
        let h = q(&self.app, &pool, &json!({"get_hooks": {}}));
        o["hooks"] = labels(&self.lab, &h["hooks"]);
        o["ord"] = order(&self.app, &self.lab);
        o["log"] = logs(&self.app, &self.lab, told);
        o["made"] = self.made();
        o["daoq"] = json!(self.lab.label(q(&self.app, &v, &json!({"dao": {}})).as_str().unwrap_or("?")));
        if self.tok() {
            let d = q(&self.app, &v, &json!({"denom": {}}))["denom"].clone();
            o["id"] = json!([if d == self.denom.as_str() { json!(DENOM) } else { d }, q(&self.app, &v, &json!({"token_contract": {}})).as_str().map(|x| self.lab.label(x)).unwrap_or("none".into())]);
        } else {
            o["value"] = map(USERS.iter().map(|w| (w.to_string(), str_or(&q(&self.app, &pool, &json!({"staked_value": {"address": w}})), "value"))));
            o["tvalue"] = str_or(&q(&self.app, &pool, &json!({"total_value": {}})), "total");
            let ow = q(&self.app, &pool, &json!({"ownership": {}}));
            let l = |v: &Value| v.as_str().map(|x| self.lab.label(x)).unwrap_or_default();
            o["own"] = json!({"owner": l(&ow["owner"]), "pending": l(&ow["pending_owner"])});
        }
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let tok = self.tok();
        let c = (!tok) as u32;
        let f = |m: &str, yes: u32, no: u32| if self.mode == m { yes } else { no };
        let ws = [(30, "stake"), (20, "unstake"), (f("claims", 6, 2), "burst"), (f("claims", 20, 10), "claim"), (f("claims", 7, 2), "dur"), (f("active", 16, 4), "thr"), (if self.mode == "hooks" { 20 } else { f("power", 6, 2) }, "hook"), (f("hooks", 5, 2), "fail"), (8 * self.ren as u32, "renew"), (4, "move"),
            (f("active", 7, 2), "mint"), (f("active", 7, 2), "burn"), (16, "adv"), (f("power", 12, 5), "at"), (f("power", 6, 2), "page"), (f("shares", 16, 8) * c, "fund"), (c, "junk"), (c, "recv"), (3 * c, "own")];
        let num = |s: String| s.parse::<u128>().unwrap_or(0);
        let who = r.s(&USERS);
        let mine = num(self.bal(&who));
        let all = self.stakers(Value::Null, json!(30));
        let staked = |w: &str| all.as_array().and_then(|a| a.iter().find(|e| e[0] == w)).map(|e| num(st(&e[1]))).unwrap_or(0);
        let own = |w: &W, r: &mut Rng| if r.chance(9, 10) { let o = w.owner(); if o.is_empty() { "dao".into() } else { o } } else { r.s(&["alice", "dao", "boss"]) };
        match r.wn(&ws) {
            "stake" if tok => {
                let a = r.amt(mine);
                let f = match r.below(20) { 0 => json!([]), 1 => json!([{"d": "uother", "a": "1"}]), 2 => json!([{"d": DENOM, "a": "1"}, {"d": "uother", "a": "1"}]), _ => json!([{"d": DENOM, "a": a.to_string()}]) };
                json!({"o": "stake", "by": who, "funds": f})
            }
            k @ ("stake" | "fund" | "junk") => json!({"o": k, "by": who, "a": (if r.chance(1, 20) { mine.saturating_add(1) } else { r.amt(mine) }).to_string(), "t": if r.chance(1, 30) { "fake" } else { "token" }}),
            "recv" => json!({"o": "recv", "by": who, "a": "5"}),
            "unstake" => {
                let w = if r.chance(5, 6) { let v: Vec<&str> = USERS.iter().copied().filter(|w| staked(w) > 0).collect(); if v.is_empty() { who } else { r.s(&v) } } else { who };
                let s = staked(&w);
                json!({"o": "unstake", "by": w, "a": (if r.chance(1, 15) { s.saturating_add(1) } else { r.amt(s) }).to_string()})
            }
            "burst" => { let mut n = r.range(2, 4); let w = USERS.iter().max_by_key(|w| staked(w)).unwrap(); if r.chance(1, 3) && staked(w) > 110 { n = r.range(97, 101); } json!({"o": "burst", "by": w, "n": n}) }
            "claim" => json!({"o": "claim", "by": who}),
            "dur" => json!({"o": "dur", "by": own(self, r), "d": gdur(r, 1)}),
            "thr" => {
                let sup = num(self.supply());
                let now = num(st(&q(&self.app, &self.a("dao"), &json!({"total_power_at_height": {}}))["power"]));
                let around = if r.chance(1, 3) { sup } else { now.saturating_add(2) };
                let by = if r.chance(8, 9) { "dao".into() } else { r.s(&["alice", "boss", "pool"]) };
                json!({"o": "thr", "by": by, "t": if r.chance(1, 3) { near(r, now, sup) } else { gthr(r, around) }})
            }
            "hook" => {
                let who = r.s(&HOOKS);
                let by = own(self, r);
                // not even the listener itself
                if r.chance(1, 10) { json!({"o": "hook", "by": who, "who": who, "add": r.chance(1, 3)}) } else { json!({"o": "hook", "by": by, "who": who, "add": r.chance(2, 3)}) }
            }
            "renew" => json!({"o": "renew", "by": if r.chance(7, 8) { "dao".into() } else { r.s(&["alice", "bob", "boss"]) }, "from": r.s(&["same", "2.3.0", "2.4.2"])}),
            "fail" => json!({"o": "fail", "who": r.s(&HOOKS), "on": r.chance(1, 3)}),
            "move" => json!({"o": "move", "by": who, "to": r.s(&["alice", "bob", "carol", "dave", "pool", "dao"]), "a": r.amt(mine).max(1).to_string()}),
            "mint" => { let room = u128::MAX - num(self.supply()); let lim = r.range(1, 1000) as u128; json!({"o": "mint", "to": who, "a": (if r.chance(1, 4) { r.amt(room) } else { lim.min(room) }).to_string()}) }
            "burn" => json!({"o": "burn", "by": who, "a": r.amt(mine).max(1).to_string()}),
            "own" => json!({"o": "own", "by": if r.chance(1, 2) { own(self, r) } else { r.s(&["alice", "boss"]) }, "act": r.wn(&[(5, "transfer"), (6, "accept"), (1, "renounce")]), "who": r.s(&["alice", "boss", "dao"])}),
            "at" => json!({"o": "at", "h": past(r, &self.app, &self.seen)}),
            "page" => json!({"o": "page", "after": r.s(&["", "alice", "bob", "bzz", "dave"]), "limit": r.range(0, 5) as i64 - 1}),
            _ => adv(r, &self.app, &mut self.seen),
        }
    }
}
pub fn cfg(r: &mut Rng, focus: &str) -> Value {
    let kind = match focus { "shares" => "cw20", _ => r.wn(&[(1, "token"), (1, "cw20")]) };
    let (min, max) = match r.below(4) { 0 => (5u128, 30u128), 1 => (100, 3000), 2 => (1 << 60, 1 << 100), _ => (1, u128::MAX / 4) };
    let mut left = u128::MAX / if r.chance(1, 2) { 2 } else { 1 };
    let none = r.chance(1, 40);
    let bals = map(USERS.iter().map(|p| { let a = if none || r.chance(1, 8) { 0 } else { (min + r.u128() % (max - min)).min(left) }; left -= a; (p.to_string(), json!(a.to_string())) }));
    let dbal = if r.chance(1, 3) { r.amt(1000.min(left)) } else { 0 };
    let sum = bals.as_object().unwrap().values().fold(0u128, |a, v| a + v.as_str().unwrap().parse::<u128>().unwrap());
    let src = if kind == "token" { r.wn(&[(8, "existing"), (8, "new"), (5, "factory"), (4, "btsg"), (1, "unminted"), (1, "nodata"), (1, "badmsg")]) } else { r.wn(&[(8, "new"), (4, "fresh"), (4, "shared"), (1, "mismatch")]) };
    let dbal = if kind == "cw20" && src != "new" { 0 } else { dbal };
    let two = if (src == "new" || src == "btsg") && r.chance(1, if kind == "token" { 3 } else { 12 }) { r.s(&USERS) } else { "".into() };
    let around = if r.chance(1, 2) { sum.saturating_add(dbal) } else { sum };
    let act = if focus == "shares" { json!({"k": "none", "v": "0"}) } else { gthr(r, around) };
    let mode = if ["", "found", "renew"].contains(&focus) { r.s(&["power", "claims", "active", "shares"]) } else { focus.to_string() };
    let all = sum.saturating_add(dbal).max(1);
    let max = if src == "btsg" { let n = match r.below(6) { 0 => all - 1, 1 => all, _ => u128::MAX }; n.max(1).to_string() } else { "0".into() };
    json!({"kind": kind, "mode": mode, "renew": focus == "renew", "src": src, "max": max, "bals": bals, "dbal": dbal.to_string(), "dur": gdur(r, 1), "act": act, "two": two, "dnull": r.chance(1, 2), "meta": r.s(&["none", "plain", "units"])})
}
