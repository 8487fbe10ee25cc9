//! The reward contracts and the pool as they were in v1, then migrated one after the other.
use crate::stream::{bin, off, rate, ACCTS, HOLD, USERS, W};
use kit::cosmwasm_std::Addr;
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, serde_json, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "streamup", cfg, new };
const PARTS: [&str; 3] = ["pool", "ext", "dist"];

struct Up {
    w: W,
    codes: Value,
    past: u64,
    len: u64,
    done: bool,
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let mut c = crate::stream::cfg(r, focus);
    while c["dur"] == 0 || c["xstk"] != "pool" || c["stk"] != "pool" && c["stk"] != "pool2" || c["dtok"] == "pool" || c["pre"].as_array().unwrap().len() > 1 { c = crate::stream::cfg(r, focus); }
    c["past"] = json!(r.below(40));
    c
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let kind = st(&cfg["kind"]);
    let mut app = app();
    let mut lab = Labels::default();
    let cw20 = app.store_code(cw20_contract());
    let stk1 = app.store_code(Box::new(ContractWrapper::new(cw20_stake_v1::contract::execute, cw20_stake_v1::contract::instantiate, cw20_stake_v1::contract::query)));
    let ext1 = app.store_code(Box::new(ContractWrapper::new(cw20_stake_external_rewards_v1::contract::execute, cw20_stake_external_rewards_v1::contract::instantiate, cw20_stake_external_rewards_v1::contract::query)));
    let dis1 = app.store_code(Box::new(ContractWrapper::new(cw20_stake_reward_distributor_v1::contract::execute, cw20_stake_reward_distributor_v1::contract::instantiate, cw20_stake_reward_distributor_v1::contract::query)));
    let stk = app.store_code(Box::new(ContractWrapper::new(cw20_stake::contract::execute, cw20_stake::contract::instantiate, cw20_stake::contract::query).with_migrate(cw20_stake::contract::migrate)));
    let ext = app.store_code(Box::new(ContractWrapper::new(cw20_stake_external_rewards::contract::execute, cw20_stake_external_rewards::contract::instantiate, cw20_stake_external_rewards::contract::query).with_migrate(cw20_stake_external_rewards::contract::migrate)));
    let dis = app.store_code(Box::new(ContractWrapper::new(cw20_stake_reward_distributor::contract::execute, cw20_stake_reward_distributor::contract::instantiate, cw20_stake_reward_distributor::contract::query).with_migrate(cw20_stake_reward_distributor::contract::migrate)));
    let bals = |v: &Value| -> Vec<(&str, u128)> { HOLD.iter().filter(|w| v[*w].is_string()).map(|w| (*w, u(&v[*w]).u128())).collect() };
    let tok = new_cw20(&mut app, cw20, &bals(&cfg["tok"]));
    lab.add(&tok, "tok");
    let fake = new_cw20(&mut app, cw20, &[("boss", 100)]);
    lab.add(&fake, "fake");
    let boss = Addr::unchecked("boss");
    let admin = Some("deployer".to_string());
    for p in ["pool", "pool2"] {
        let a = app.instantiate_contract(stk1, boss.clone(), &json!({"owner": "boss", "manager": null, "token_address": tok.to_string(), "unstaking_duration": null}), &[], p, admin.clone())?;
        lab.add(&a, p);
    }
    let rew = match kind.as_str() {
        "cw20" => { let r = new_cw20(&mut app, cw20, &bals(&cfg["rew"])); lab.add(&r, "rew"); json!({"cw20": r.to_string()}) }
        k => { for (w, n) in bals(&cfg["rew"]) { mint(&mut app, w, "urew", n); } if k == "native" { json!({"native": "urew"}) } else { json!({"cw20": tok.to_string()}) } }
    };
    mint(&mut app, "boss", "uother", 100);
    let pool = Addr::unchecked(lab.addr("pool"));
    for x in cfg["pre"].as_array().unwrap() {
        app.execute_contract(Addr::unchecked(st(&x["w"])), tok.clone(), &json!({"send": {"contract": pool.to_string(), "amount": x["a"], "msg": bin(json!({"stake": {}}))}}), &[])?;
    }
    let own = if cfg["owner"] == "" { Value::Null } else { cfg["owner"].clone() };
    let x = app.instantiate_contract(ext1, boss.clone(), &json!({"owner": own, "manager": "carol", "staking_contract": pool.to_string(), "reward_token": rew, "reward_duration": cfg["dur"]}), &[], "x", admin.clone())?;
    lab.add(&x, "ext");
    app.execute_contract(boss.clone(), pool, &json!({"add_hook": {"addr": x.to_string()}}), &[])?;
    let d = app.instantiate_contract(dis1, boss, &json!({"owner": "boss", "staking_addr": lab.addr(cfg["stk"].as_str().unwrap()), "reward_rate": cfg["rate"], "reward_token": lab.addr(cfg["dtok"].as_str().unwrap())}), &[], "d", admin)?;
    lab.add(&d, "dist");
    Ok(Box::new(Up { w: W { app, kind, lab }, codes: json!({"pool": stk, "ext": ext, "dist": dis}), past: 0, len: cfg["past"].as_u64().unwrap(), done: false }))
}
impl Up {
    fn raw(&self, c: &str, ns: &str, key: Option<&str>) -> Value {
        let mut k = vec![];
        if let Some(key) = key {
            k.extend((ns.len() as u16).to_be_bytes());
            k.extend(ns.as_bytes());
            k.extend(key.as_bytes());
        } else { k.extend(ns.as_bytes()); }
        self.w.app.wrap().query_wasm_raw(self.w.a(c), k).unwrap().map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or(Value::Null)
    }
    fn owner(&self, c: &str) -> String {
        self.raw(c, "config", None)["owner"].as_str().unwrap_or("").to_string()
    }
    fn past(&mut self, r: &mut Rng) {
        let op = self.w.gen(r);
        let (xo, down) = (self.owner("ext"), self.owner("dist"));
        let mut e = op.clone();
        match op["o"].as_str().unwrap() {
            "fund" | "dur" => {
                if !xo.is_empty() { e["by"] = json!(xo); }
                if e["o"] == "fund" { e["a"] = json!((self.w.hold(if self.w.kind == "same" { "tok" } else { "rew" }, &xo).parse().unwrap_or(0) / r.range(1, 5) as u128).max(1).to_string()); }
                self.w.exec(&e);
            }
            "wd" => { e["by"] = json!(down); self.w.exec(&e); }
            "dcfg" => {
                let m = json!({"update_config": {"owner": r.s(&["boss", "alice", "bob"]), "staking_addr": self.w.lab.addr(r.s(&["pool", "pool2"]).as_str()), "reward_rate": rate(r), "reward_token": self.w.lab.addr("tok")}});
                self.w.call(&down, "dist", &m, &[]);
            }
            "offer" | "accept" | "renounce" => {
                let m = if r.chance(1, 2) { json!({"update_owner": {"new_owner": r.wn(&[(4, "boss"), (4, "alice"), (4, "bob")])}}) } else { json!({"update_manager": {"new_manager": r.s(&USERS)}}) };
                self.w.call(&xo, "ext", &m, &[]);
            }
            _ => { self.w.exec(&op); }
        }
    }
    fn dump(&self) -> Value {
        let w = &self.w;
        let b = w.app.block_info();
        let p = w.a("pool");
        let sh = |k: i64| map(USERS.iter().filter(|x| !self.raw("pool", "staked_balances", Some(x)).is_null()).map(|x| (x.to_string(), q(&w.app, &p, &json!({"staked_balance_at_height": {"address": x, "height": H0 as i64 + k}}))["balance"].clone())));
        let h = (b.height - H0) as i64;
        let rc = self.raw("ext", "reward_config", None);
        let n = |v: Value| v.as_str().map(|s| json!(s)).unwrap_or(json!("0"));
        let per = |ns: &str| map(USERS.iter().chain(["boss"].iter()).map(|x| (x.to_string(), self.raw("ext", ns, Some(x)))).filter(|(_, v)| !v.is_null()));
        let d = self.raw("dist", "config", None);
        let lab = |v: &Value| json!(w.lab.label(v.as_str().unwrap()));
        json!({"kind": w.kind, "h": h, "t": b.time.seconds() - T0, "at": (0..=h + 1).map(sh).collect::<Vec<_>>(), "pot": n(self.raw("pool", "balance", None)),
            "hold": map(["tok", "rew", "fake"].iter().map(|t| (t.to_string(), map(ACCTS.iter().map(|x| (x.to_string(), json!(w.hold(t, x)))))))),
            "x": {"rate": rc["reward_rate"], "fin": off(&rc["period_finish"]), "dur": rc["reward_duration"], "rpt": n(self.raw("ext", "reward_per_token", None)), "last": off(&json!(self.raw("ext", "last_update_block", None).as_u64().unwrap_or(0))),
                "pend": per("pending_rewards"), "seen": per("user_reward_per_token")},
            "xo": self.owner("ext"), "dow": self.owner("dist"),
            "d": {"rate": d["reward_rate"], "last": off(&self.raw("dist", "last_payment_block", None)), "stk": lab(&d["staking_addr"]), "tok": lab(&d["reward_token"])}})
    }
}
impl World for Up {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        match op["o"].as_str().unwrap() {
            "past" => {
                self.past += 1;
                let mut r = Rng::new(op["seed"].as_u64().unwrap(), 3);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.past(&mut r)));
                (true, json!({}))
            }
            "import" | "again" => {
                for c in op["order"].as_array().unwrap() {
                    let c = c.as_str().unwrap();
                    let a = self.w.a(c);
                    let r = res(self.w.app.migrate_contract(Addr::unchecked(st(&op["by"])), a, &json!({"from_v1": {}}), self.codes[c].as_u64().unwrap()));
                    if !r.0 { return r; }
                }
                self.done = true;
                (true, json!({}))
            }
            _ => self.w.exec(op),
        }
    }
    fn obs(&mut self) -> Value {
        if !self.done { return json!({"phase": "old"}); }
        let mut o = self.w.obs();
        o["phase"] = json!("new");
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let by = if r.chance(1, 20) { "boss" } else { "deployer" };
        if self.done { return if r.chance(1, 60) { json!({"o": "again", "k": "v1", "by": by, "order": [r.s(&PARTS)]}) } else { self.w.gen(r) }; }
        if self.past < self.len || r.chance(1, 2) { return json!({"o": "past", "seed": r.below(1 << 30)}); }
        let mut order = PARTS.to_vec();
        for i in (1..3).rev() { let j = r.below(i + 1) as usize; order.swap(i as usize, j); }
        json!({"o": "import", "by": by, "order": order, "dump": self.dump()})
    }
}
