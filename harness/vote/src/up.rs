//! A staking pool that lived its first life as cw20-stake v1, is then migrated, and serves a DAO.
use crate::common::*;
use crate::stake::{USERS, W};
use kit::cosmwasm_std::Addr;
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, mock, serde_json, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "stakeup", cfg, new };

struct Up {
    w: W,
    code: u64,
    mock_code: u64,
    past: u64,
    len: u64,
    done: bool,
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let mut c = crate::stake::cfg(r, focus);
    while c["kind"] != "cw20" || c["src"] != "shared" || c["dur"]["k"] != "none" && c["dur"]["v"] == 0 { c = crate::stake::cfg(r, focus); }
    c["owner"] = json!(r.s(&["boss", "boss", "boss", "alice", ""]));
    c["past"] = json!(r.below(40));
    c
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let mut app = app();
    let mut lab = Labels::default();
    let mock_code = app.store_code(Box::new(mock::Mock));
    let cw20 = app.store_code(cw20_contract());
    let v1 = app.store_code(Box::new(ContractWrapper::new(cw20_stake_v1::contract::execute, cw20_stake_v1::contract::instantiate, cw20_stake_v1::contract::query)));
    let code = app.store_code(Box::new(ContractWrapper::new(cw20_stake::contract::execute, cw20_stake::contract::instantiate, cw20_stake::contract::query).with_migrate(cw20_stake::contract::migrate)));
    listeners(&mut app, mock_code, &mut lab);
    let fake = new_cw20(&mut app, cw20, &[("alice", 100), ("bob", 100)]);
    lab.add(&fake, "fake");
    let v: Vec<(&str, u128)> = USERS.iter().map(|p| (*p, u(&cfg["bals"][p]).u128())).collect();
    let t = new_cw20(&mut app, cw20, &v);
    lab.add(&t, "token");
    let own = if cfg["owner"] == "" { Value::Null } else { cfg["owner"].clone() };
    let s = app.instantiate_contract(v1, Addr::unchecked("boss"), &json!({"owner": own, "manager": "carol", "token_address": t.to_string(), "unstaking_duration": dur(&cfg["dur"])}), &[], "s", Some("deployer".into()))?;
    lab.add(&s, "pool");
    let w = W { app, code: [0; 2], ren: false, denom: "".into(), seen: vec![0], kind: "cw20".into(), mode: st(&cfg["mode"]), lab, at: json!({}), page: json!([]) };
    Ok(Box::new(Up { w, code, mock_code, past: 0, len: cfg["past"].as_u64().unwrap(), done: false }))
}
impl Up {
    fn raw(&self, ns: &str, key: Option<&str>) -> Value {
        let mut k = vec![];
        if let Some(key) = key {
            k.extend((ns.len() as u16).to_be_bytes());
            k.extend(ns.as_bytes());
            k.extend(key.as_bytes());
        } else { k.extend(ns.as_bytes()); }
        self.w.app.wrap().query_wasm_raw(self.w.a("pool"), k).unwrap().map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or(Value::Null)
    }
    fn past(&mut self, r: &mut Rng) {
        let c = self.raw("config", None);
        let boss = if r.chance(1, 4) { &c["manager"] } else { &c["owner"] }.as_str().unwrap_or("bob").to_string();
        let wal = |w: &W, x: &str| w.bal(x).parse::<u128>().unwrap_or(0);
        let who = r.s(&USERS);
        let staked = |u: &Up, x: &str| q(&u.w.app, &u.w.a("pool"), &json!({"staked_balance_at_height": {"address": x, "height": null}}))["balance"].as_str().and_then(|s| s.parse::<u128>().ok()).unwrap_or(0);
        let k = r.wn(&[(30, "stake"), (20, "unstake"), (6, "burst"), (10, "claim"), (6, "cfg"), (8, "hook"), (2, "move"), (20, "adv"), (8, "fund"), (2, "mint")]);
        let op = match k {
            "stake" | "fund" => { let m = wal(&self.w, &who); json!({"o": k, "by": who, "a": r.amt(m).to_string(), "t": "token"}) }
            "unstake" => { let m = staked(self, &who); json!({"o": k, "by": who, "a": r.amt(m).to_string()}) }
            "burst" => json!({"o": k, "by": who, "n": if r.chance(1, 4) { r.range(60, 100) } else { r.range(2, 5) }}),
            "claim" => json!({"o": k, "by": who}),
            "cfg" => {
                let m = json!({"update_config": {"owner": if boss == c["owner"].as_str().unwrap_or("") && r.chance(1, 3) { json!(r.s(&["alice", "boss"])) } else { c["owner"].clone() }, "manager": r.s(&["carol", "dave"]), "duration": dur(&gdur(r, 0))}});
                self.w.call(&boss, "pool", &m, &[]);
                return;
            }
            "hook" => json!({"o": k, "by": boss, "who": r.s(&HOOKS), "add": r.chance(2, 3)}),
            "move" => { let m = wal(&self.w, &who); json!({"o": k, "by": who, "to": r.s(&["alice", "pool"]), "a": r.amt(m).max(1).to_string()}) }
            "mint" => json!({"o": k, "to": who, "a": r.range(1, 1000).to_string()}),
            _ => { let n = r.range(0, 3); json!({"o": "adv", "n": n, "s": n * r.range(3, 7)}) }
        };
        self.w.exec(&op);
    }
    fn dump(&self) -> Value {
        let w = &self.w;
        let b = w.app.block_info();
        let p = w.a("pool");
        let h = (b.height - H0) as i64;
        let sh = |k: i64| map(USERS.iter().filter(|x| !self.raw("staked_balances", Some(x)).is_null()).map(|x| (x.to_string(), q(&w.app, &p, &json!({"staked_balance_at_height": {"address": x, "height": H0 as i64 + k}}))["balance"].clone())));
        let c = self.raw("config", None);
        let n = |v: Value| v.as_str().map(|s| json!(s)).unwrap_or(json!("0"));
        json!({"h": h, "t": b.time.seconds() - T0, "at": (0..=h + 1).map(sh).collect::<Vec<_>>(), "pot": n(self.raw("balance", None)),
            "wal": map(USERS.iter().chain(["pool"].iter()).map(|x| (x.to_string(), json!(w.bal(x))))),
            "claims": map(USERS.iter().map(|x| {
                let v = q(&w.app, &p, &json!({"claims": {"address": x}}));
                (x.to_string(), Value::Array(v["claims"].as_array().unwrap().iter().map(|e| json!({"a": e["amount"], "e": jexp(&e["release_at"])})).collect()))
            })),
            "dur": jdur(&c["unstaking_duration"]), "owner": c["owner"].as_str().unwrap_or(""), "hooks": labels(&w.lab, &q(&w.app, &p, &json!({"get_hooks": {}}))["hooks"]), "ord": order(&w.app, &w.lab), "log": logs(&w.app, &w.lab, crate::stake::told)})
    }
    /// a DAO comes to use the pool
    fn serve(&mut self) {
        let app = &mut self.w.app;
        let core = core_code(app);
        let code = app.store_code(Box::new(ContractWrapper::new(dao_voting_cw20_staked::contract::execute, dao_voting_cw20_staked::contract::instantiate, dao_voting_cw20_staked::contract::query).with_reply(dao_voting_cw20_staked::contract::reply)));
        let info = json!({"existing": {"address": self.w.lab.addr("token"), "staking_contract": {"existing": {"staking_contract_address": self.w.lab.addr("pool")}}}});
        let vote = modinfo(code, json!({"token_info": info, "active_threshold": null}));
        dao(app, core, self.mock_code, vote, &mut self.w.lab).unwrap();
        self.w.at = at(&self.w.app, &self.w.lab, &USERS, 0);
    }
}
impl World for Up {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        match op["o"].as_str().unwrap() {
            "past" => {
                self.past += 1;
                let mut r = Rng::new(op["seed"].as_u64().unwrap(), 3);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.past(&mut r)));
                (true, json!({}))
            }
            "import" | "again" => {
                let p = self.w.a("pool");
                let r = res(self.w.app.migrate_contract(Addr::unchecked(st(&op["by"])), p, &json!({"from_v1": {}}), self.code));
                if r.0 && !self.done { self.done = true; self.serve(); }
                r
            }
            _ => self.w.exec(op),
        }
    }
    fn obs(&mut self) -> Value {
        if !self.done { return json!({"phase": "old"}); }
        let mut o = self.w.obs();
        o["phase"] = json!("new");
        // here somebody has to be able to migrate it
        if o["made"]["pool"]["adm"] == "deployer" { o["made"]["pool"]["adm"] = json!(""); }
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let by = if r.chance(1, 20) { "boss" } else { "deployer" };
        if self.done { return if r.chance(1, 60) { json!({"o": "again", "k": "v1", "by": by}) } else { self.w.gen(r) }; }
        if self.past < self.len || r.chance(1, 2) { return json!({"o": "past", "seed": r.below(1 << 30)}); }
        json!({"o": "import", "by": by, "dump": self.dump()})
    }
}
