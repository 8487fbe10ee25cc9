//! Reward contracts of a cw20 staking pool: cw20-stake-external-rewards and cw20-stake-reward-distributor.
use kit::cosmwasm_std::{Addr, BankMsg, Binary, Coin};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "stream", cfg, new };
pub const USERS: [&str; 3] = ["alice", "bob", "carol"];
pub const ACCTS: [&str; 8] = ["alice", "bob", "carol", "boss", "pool", "pool2", "ext", "dist"];
pub const HOLD: [&str; 4] = ["alice", "bob", "carol", "boss"];

pub struct W {
    pub app: App,
    pub kind: String,
    pub lab: Labels,
}
pub fn bin(v: Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
pub fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let kind = st(&cfg["kind"]);
    let mut app = app();
    let mut lab = Labels::default();
    let cw20 = app.store_code(cw20_contract());
    let stk = app.store_code(Box::new(ContractWrapper::new(cw20_stake::contract::execute, cw20_stake::contract::instantiate, cw20_stake::contract::query)));
    let ext = app.store_code(Box::new(ContractWrapper::new(cw20_stake_external_rewards::contract::execute, cw20_stake_external_rewards::contract::instantiate, cw20_stake_external_rewards::contract::query)));
    let dis = app.store_code(Box::new(ContractWrapper::new(cw20_stake_reward_distributor::contract::execute, cw20_stake_reward_distributor::contract::instantiate, cw20_stake_reward_distributor::contract::query)));
    let bals = |v: &Value| -> Vec<(&str, u128)> { HOLD.iter().filter(|w| v[*w].is_string()).map(|w| (*w, u(&v[*w]).u128())).collect() };
    let tok = new_cw20(&mut app, cw20, &bals(&cfg["tok"]));
    lab.add(&tok, "tok");
    let fake = new_cw20(&mut app, cw20, &[("boss", 100)]);
    lab.add(&fake, "fake");
    let boss = Addr::unchecked("boss");
    for p in ["pool", "pool2"] {
        let a = app.instantiate_contract(stk, boss.clone(), &json!({"owner": "boss", "token_address": tok.to_string(), "unstaking_duration": null}), &[], p, None)?;
        lab.add(&a, p);
    }
    let rew = match kind.as_str() {
        "cw20" => { let r = new_cw20(&mut app, cw20, &bals(&cfg["rew"])); lab.add(&r, "rew"); json!({"cw20": r.to_string()}) }
        k => { for (w, n) in bals(&cfg["rew"]) { mint(&mut app, w, "urew", n); } if k == "native" { json!({"native": "urew"}) } else { json!({"cw20": tok.to_string()}) } }
    };
    mint(&mut app, "boss", "uother", 100);
    let pool = Addr::unchecked(lab.addr("pool"));
    for x in cfg["pre"].as_array().unwrap() {
        app.execute_contract(Addr::unchecked(st(&x["w"])), tok.clone(), &json!({"send": {"contract": pool.to_string(), "amount": x["a"], "msg": bin(json!({"stake": {}}))}}), &[])?;
    }
    let own = if cfg["owner"] == "" { Value::Null } else { cfg["owner"].clone() };
    let x = app.instantiate_contract(ext, boss.clone(), &json!({"owner": own, "staking_contract": lab.addr(cfg["xstk"].as_str().unwrap()), "reward_token": rew, "reward_duration": cfg["dur"]}), &[], "x", None)?;
    lab.add(&x, "ext");
    app.execute_contract(boss.clone(), pool.clone(), &json!({"add_hook": {"addr": x.to_string()}}), &[])?;
    let d = app.instantiate_contract(dis, boss, &json!({"owner": "boss", "staking_addr": lab.addr(cfg["stk"].as_str().unwrap()), "reward_rate": cfg["rate"], "reward_token": lab.addr(cfg["dtok"].as_str().unwrap())}), &[], "d", None)?;
    lab.add(&d, "dist");
    Ok(Box::new(W { app, kind, lab }))
}
impl W {
    pub fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    pub fn call(&mut self, by: &str, to: &str, msg: &Value, f: &[Coin]) -> (bool, Value) {
        let (by, to) = (self.lab.addr(by), self.a(to));
        exec(&mut self.app, &by, &to, msg, f)
    }
    fn ra(&self) -> &'static str {
        if self.kind == "same" { "tok" } else { "rew" }
    }
    pub fn hold(&self, asset: &str, w: &str) -> String {
        if asset == "rew" && self.kind != "cw20" { bal(&self.app, &self.a(w), "urew") } else { cw20_bal(&self.app, &self.a(asset), &self.lab.addr(w)) }
    }
    fn has(&self, asset: &str, w: &str) -> u128 {
        self.hold(asset, w).parse().unwrap_or(0)
    }
    fn send(&mut self, by: &str, tok: &str, to: &str, a: &Value, m: Value) -> (bool, Value) {
        let m = json!({"send": {"contract": self.lab.addr(to), "amount": a, "msg": bin(m)}});
        self.call(by, tok, &m, &[])
    }
    fn shares(&self, w: &str) -> u128 {
        u(&q(&self.app, &self.a("pool"), &json!({"staked_value": {"address": w}}))["value"]).u128()
    }
    fn owner(&self, c: &str) -> Value {
        own(&self.app, &self.lab, &self.a(c))
    }
}
pub fn off(v: &Value) -> Value {
    v.as_u64().map(|h| json!(h as i64 - H0 as i64)).unwrap_or(json!("?"))
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        match op["o"].as_str().unwrap() {
            "stake" => self.send(&by, "tok", "pool", &op["a"], json!({"stake": {}})),
            "unstake" => self.call(&by, "pool", &json!({"unstake": {"amount": op["a"]}}), &[]),
            "fund" => {
                let ok = op["t"] == "ok";
                match self.kind.as_str() {
                    "native" if op["t"] == "cw20" => self.send(&by, "fake", "ext", &op["a"], json!({"fund": {}})),
                    "native" => { let mut f = vec![Coin { denom: if ok { "urew" } else { "uother" }.into(), amount: u(&op["a"]) }];
                        if op["t"] == "two" { f.push(Coin { denom: "urew".into(), amount: u(&op["a"]) }); }
                        self.call(&by, "ext", &json!({"fund": {}}), &f) }
                    _ if op["t"] == "two" => self.call(&by, "ext", &json!({"fund": {}}), &[]),
                    k => { let t = if !ok { "fake" } else if k == "same" { "tok" } else { "rew" }; self.send(&by, t, "ext", &op["a"], json!({"fund": {}})) }
                }
            }
            "claim" => self.call(&by, "ext", &json!({"claim": {}}), &[]),
            "dur" => self.call(&by, "ext", &json!({"update_reward_duration": {"new_duration": op["n"]}}), &[]),
            "hook" => { let m = json!({"stake_change_hook": {"stake": {"addr": op["who"], "amount": "5"}}}); self.call(&by, "ext", &m, &[]) }
            "dist" => self.call(&by, "dist", &json!({"distribute": {}}), &[]),
            "dcfg" => { let m = json!({"update_config": {"staking_addr": self.lab.addr(op["stk"].as_str().unwrap()), "reward_rate": op["rate"], "reward_token": self.lab.addr(op["tok"].as_str().unwrap())}}); self.call(&by, "dist", &m, &[]) }
            "wd" => self.call(&by, "dist", &json!({"withdraw": {}}), &[]),
            "offer" | "accept" | "renounce" => { let m = own_msg(&self.lab, op); self.call(&by, op["c"].as_str().unwrap(), &json!({"update_ownership": m}), &[]) }
            "give" => {
                let (a, to) = (op["as"].as_str().unwrap(), self.lab.addr(op["to"].as_str().unwrap()));
                if a == "rew" && self.kind != "cw20" { res(run(&mut self.app, &by, BankMsg::Send { to_address: to, amount: vec![Coin { denom: "urew".into(), amount: u(&op["a"]) }] }.into())) }
                else { self.call(&by, a, &json!({"transfer": {"recipient": to, "amount": op["a"]}}), &[]) }
            }
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            x => panic!("op {x}"),
        }
    }
    fn obs(&mut self) -> Value {
        let mut o = json!({"now": clock(&self.app)});
        o["hold"] = map(["tok", "rew", "fake"].iter().map(|t| (t.to_string(), map(ACCTS.iter().map(|w| (w.to_string(), json!(self.hold(t, w))))))));
        let (p, x, d) = (self.a("pool"), self.a("ext"), self.a("dist"));
        o["sh"] = map(USERS.iter().map(|w| (w.to_string(), q(&self.app, &p, &json!({"staked_balance_at_height": {"address": w, "height": null}}))["balance"].clone())));
        o["tot"] = q(&self.app, &p, &json!({"total_staked_at_height": {"height": null}}))["total"].clone();
        o["pot"] = q(&self.app, &p, &json!({"total_value": {}}))["total"].clone();
        let pr: Vec<Value> = USERS.iter().map(|w| q(&self.app, &x, &json!({"get_pending_rewards": {"address": w}}))).collect();
        o["pend"] = map(USERS.iter().zip(&pr).map(|(w, v)| (w.to_string(), if v["pending_rewards"].is_string() { v["pending_rewards"].clone() } else { v.clone() })));
        let i = q(&self.app, &x, &json!({"info": {}}));
        o["x"] = json!({"rate": i["reward"]["reward_rate"], "fin": off(&i["reward"]["period_finish"]), "dur": i["reward"]["reward_duration"], "last": off(&pr[0]["last_update_block"])});
        o["xown"] = self.owner("ext");
        o["down"] = self.owner("dist");
        let i = q(&self.app, &d, &json!({"info": {}}));
        let l = |v: &Value| json!(self.lab.label(v.as_str().unwrap_or("?")));
        o["d"] = json!({"rate": i["config"]["reward_rate"], "last": off(&i["last_payment_block"]), "stk": l(&i["config"]["staking_addr"]), "tok": l(&i["config"]["reward_token"]), "bal": i["balance"]});
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let k = r.wn(&[(64, "stake"), (48, "unstake"), (64, "fund"), (48, "claim"), (12, "dur"), (4, "hook"), (40, "dist"), (10, "dcfg"), (5, "wd"), (10, "offer"), (14, "accept"), (1, "renounce"), (48, "give"), (90, "adv")]);
        let who = r.s(&USERS);
        let (xo, down) = (self.owner("ext"), self.owner("dist"));
        let c = r.s(&["ext", "dist"]);
        let of = |r: &mut Rng, o: &Value| { let x = o["owner"].as_str().unwrap_or(""); if x.is_empty() || r.chance(1, 10) { r.s(&["alice", "bob", "boss"]) } else { x.to_string() } };
        match k {
            "stake" => { let h = self.has("tok", &who); json!({"o": k, "by": who, "a": if r.chance(1, 20) { h.saturating_add(1) } else { r.amt(h) }.to_string()}) }
            "unstake" => { let h = self.shares(&who); let a = if r.chance(1, 20) { h.saturating_add(1) } else { r.amt(h) }; json!({"o": k, "by": who, "a": a.to_string()}) }
            "fund" => { let by = of(r, &xo); let h = self.has(self.ra(), &by); json!({"o": k, "by": by, "a": if r.chance(2, 3) { h / r.range(1, 6) as u128 } else { r.amt(h) }.max(1).to_string(), "t": r.wn(&[(20, "ok"), (1, "other"), (1, "two"), (1, "cw20")])}) }
            "claim" => json!({"o": k, "by": who}),
            "dur" => json!({"o": k, "by": of(r, &xo), "n": r.below(9)}),
            "hook" => json!({"o": k, "by": who, "who": "bob"}),
            "dist" => json!({"o": k, "by": who}),
            "dcfg" => json!({"o": k, "by": of(r, &down), "rate": rate(r), "stk": r.wn(&[(8, "pool"), (2, "pool2"), (1, "ext")]), "tok": r.wn(&[(8, "tok"), (2, "fake"), (1, "pool")])}),
            "wd" => json!({"o": k, "by": of(r, &down)}),
            "offer" | "accept" | "renounce" => { let mut o = gown(r, k, if c == "ext" { &xo } else { &down }, &who, &["boss", "alice", "bob"], &clock(&self.app)); o["c"] = json!(c); o }
            "give" => {
                let t = r.wn(&[(12, "tok"), (6, "rew"), (1, "fake")]);
                let by = r.s(&["alice", "bob", "boss", "boss"]);
                let h = self.has(t, &by);
                json!({"o": k, "by": by, "as": t, "to": r.wn(&[(2, "ext"), (8, "dist"), (1, "pool"), (2, "carol"), (2, "boss")]), "a": if r.chance(1, 2) { h / 4 } else { r.amt(h / 3) }.max(1).to_string()})
            }
            _ => { let n = r.range(0, 4); json!({"o": "adv", "n": n, "s": 5 * n}) }
        }
    }
}
pub fn rate(r: &mut Rng) -> String {
    match r.below(12) { 0 => "0".into(), 1 => u128::MAX.to_string(), 2 | 3 => (r.u128() >> 30).to_string(), _ => r.below(40).to_string() }
}
pub fn cfg(r: &mut Rng, _focus: &str) -> Value {
    let kind = r.s(&["native", "cw20", "same"]);
    let big = r.chance(1, 3);
    let m: u128 = if big { 1_000_000_000_000_000_000_000_000_000_000 } else { 1000 };
    let some = |r: &mut Rng| map(HOLD.iter().filter_map(|w| { let n = r.amt(m); if n > 0 { Some((w.to_string(), json!(n.to_string()))) } else { None } }));
    let (mut tok, mut rew) = (some(r), some(r));
    if r.chance(5, 6) { for t in [&mut tok, &mut rew] { t["boss"] = json!(m.to_string()); } }
    let pre: Vec<Value> = if r.chance(1, 3) { USERS.iter().filter(|w| tok[**w].is_string()).take(2).map(|w| json!({"w": w, "a": (u(&tok[*w]).u128() / 2).max(1).to_string()})).collect() } else { vec![] };
    json!({"kind": kind, "tok": tok, "rew": rew, "pre": pre, "dur": if r.chance(1, 25) { 0 } else { r.range(1, 12) }, "owner": r.wn(&[(8, "boss"), (1, "")]), "xstk": r.wn(&[(25, "pool"), (1, "tok")]),
        "rate": rate(r), "stk": r.wn(&[(20, "pool"), (3, "pool2"), (1, "tok")]), "dtok": r.wn(&[(20, "tok"), (1, "fake"), (1, "pool")])})
}
