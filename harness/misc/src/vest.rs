//! cw-vesting: vesting payments, with the staking module of the chain.
use kit::chain::{chain_act, first_end, staked, withdraw_address};
use kit::cosmwasm_std::{Addr, BankMsg, Binary, Coin};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, Rng, Value, World};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const SUITE: kit::Suite = kit::Suite { name: "vest", cfg, new };
const ACCTS: [&str; 5] = ["alice", "bob", "carol", "boss", "vest"];
const VALS: [&str; 3] = ["v1", "v2", "v3"];

/// a slash not registered yet
#[derive(Clone)]
struct Real { v: String, t: i64, n: String, u: bool, end: i64 }
struct W {
    app: App,
    lab: Labels,
    who: String,
    ubs: i64,
    /// what the payment was told: times at which its stake changes, and the ends of unbondings
    facts: Vec<i64>,
    reds: Vec<(i64, String, String)>,
    ends: Vec<(String, i64, u128)>,
    real: Vec<Real>,
}
fn bin(v: Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
fn ns(t: i64) -> String {
    format!("{}000000000", t + T0 as i64)
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let mut app = app();
    let mut lab = Labels::default();
    let cw20 = app.store_code(cw20_contract());
    let code = app.store_code(Box::new(ContractWrapper::new(cw_vesting::contract::execute, cw_vesting::contract::instantiate, cw_vesting::contract::query)));
    let n = u(&cfg["hold"]).u128();
    let have = [("alice", 50), ("boss", n)];
    for t in ["tok", "fake"] {
        let a = new_cw20(&mut app, cw20, &have.iter().copied().filter(|x| x.1 > 0).collect::<Vec<_>>());
        lab.add(&a, t);
    }
    for (w, n) in have { for d in ["ustake", "una"] { mint(&mut app, w, d, n); } }
    chain_act(&mut app, &json!(["ubs", cfg["cubs"]]))?;
    let denom = match cfg["kind"].as_str().unwrap() { "stake" => json!({"native": "ustake"}), "una" => json!({"native": "una"}), "tok" => json!({"cw20": lab.addr("tok")}), "nope" => json!({"cw20": "carol"}), _ => json!({"native": "?"}) };
    let steps: Vec<Value> = cfg["q"].as_array().unwrap().iter().map(|x| json!([x["x"], x["y"]])).collect();
    let sched = if steps.is_empty() { json!("saturating_linear") } else { json!({"piecewise_linear": steps}) };
    let owner = if cfg["owner"] == "" { Value::Null } else { cfg["owner"].clone() };
    // part of a second does not count
    let start = if cfg["given"] != true { Value::Null } else if cfg["frac"] == true { json!(format!("{}700000000", cfg["start"].as_i64().unwrap() + T0 as i64)) } else { json!(ns(cfg["start"].as_i64().unwrap())) };
    let sent: Vec<Coin> = cfg["sent"].as_array().unwrap().iter().map(|c| Coin { denom: st(&c["d"]), amount: u(&c["n"]) }).collect();
    let m = json!({"owner": owner, "recipient": cfg["who"], "title": "t", "description": null, "total": cfg["total"], "denom": denom, "schedule": sched, "start_time": start, "vesting_duration_seconds": cfg["dur"], "unbonding_duration_seconds": cfg["ubs"]});
    let a = app.instantiate_contract(code, Addr::unchecked("boss"), &m, &sent, "v", None)?;
    lab.add(&a, "vest");
    Ok(Box::new(W { app, lab, who: st(&cfg["who"]), ubs: cfg["ubs"].as_i64().unwrap(), facts: vec![], reds: vec![], ends: vec![], real: vec![] }))
}
impl W {
    fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn now(&self) -> i64 {
        self.app.block_info().time.seconds() as i64 - T0 as i64
    }
    fn ask(&self, m: Value) -> Value {
        catch_unwind(AssertUnwindSafe(|| q(&self.app, &self.a("vest"), &m))).unwrap_or(json!({"err": 3}))
    }
    fn hold(&self, asset: &str, w: &str) -> String {
        if asset.starts_with('u') { bal(&self.app, &self.a(w), asset) } else { cw20_bal(&self.app, &self.a(asset), &self.lab.addr(w)) }
    }
    fn chain(&self, v: &str) -> (u128, u128, u128) {
        staked(&self.app, &self.lab.addr("vest"), v)
    }
    fn tidy(&self, r: &Real) -> bool {
        !r.u || (self.ends.iter().filter(|e| e.0 == r.v && e.1 > r.t).map(|e| e.1).min() == Some(r.end) && !self.touched(&r.v, r.t, r.end))
    }
    /// did anything between the two times change the stake with v or the total
    fn touched(&self, v: &str, from: i64, to: i64) -> bool {
        self.facts.iter().any(|y| from < *y && *y < to) || self.reds.iter().any(|x| from < x.0 && x.0 < to && (x.1 == v || x.2 == v))
    }
    fn act(&mut self, op: &Value) -> anyhow::Result<()> {
        let who = self.lab.addr("vest");
        let m = match op["o"].as_str().unwrap() {
            "reward" => json!(["reward", who, op["v"], op["a"]]),
            _ => json!(["slash", who, op["v"], op["a"], op["u"]]),
        };
        chain_act(&mut self.app, &m)
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        let k = op["o"].as_str().unwrap();
        let amount = if op["a"] == "" { Value::Null } else { op["a"].clone() };
        let f = if op["pay"] == true { vec![Coin { denom: "ustake".into(), amount: 1u128.into() }] } else { vec![] };
        let m = match k {
            "fund" => {
                let m = json!({"send": {"contract": self.lab.addr("vest"), "amount": op["a"], "msg": bin(json!({"fund": {}}))}});
                let t = self.a(op["t"].as_str().unwrap());
                return exec(&mut self.app, &by, &t, &m, &[]);
            }
            "give" => {
                let (d, to) = (op["d"].as_str().unwrap(), self.lab.addr("vest"));
                return if d.starts_with('u') { res(run(&mut self.app, &by, BankMsg::Send { to_address: to, amount: vec![Coin { denom: d.into(), amount: u(&op["a"]) }] }.into())) }
                else { let t = self.a(d); exec(&mut self.app, &by, &t, &json!({"transfer": {"recipient": to, "amount": op["a"]}}), &[]) };
            }
            "slash" | "reward" => {
                let end = first_end(&self.app, &self.lab.addr("vest"), op["v"].as_str().unwrap()).map(|e| e.0 as i64 - T0 as i64).unwrap_or(0);
                return match self.act(op) {
                    Ok(()) => {
                        if k == "slash" { let r = Real { v: st(&op["v"]), t: self.now(), n: st(&op["a"]), u: op["u"] == true, end }; self.real.push(r); }
                        (true, json!({}))
                    }
                    Err(e) => (false, json!({"err": e.to_string()})),
                };
            }
            "adv" => { advance(&mut self.app, op); return (true, json!({})); }
            "dist" => json!({"distribute": {"amount": amount}}),
            "cancel" => json!({"cancel": {}}),
            "wd" => json!({"withdraw_canceled_payment": {"amount": amount}}),
            "del" => json!({"delegate": {"validator": op["v"], "amount": op["a"]}}),
            "und" => json!({"undelegate": {"validator": op["v"], "amount": op["a"]}}),
            "red" => json!({"redelegate": {"src_validator": op["v"], "dst_validator": op["w"], "amount": op["a"]}}),
            "addr" => json!({"set_withdraw_address": {"address": self.lab.addr(op["to"].as_str().unwrap())}}),
            "rw" => json!({"withdraw_delegator_reward": {"validator": op["v"]}}),
            "reg" => json!({"register_slash": {"validator": op["v"], "time": ns(op["t"].as_i64().unwrap()), "amount": op["a"], "during_unbonding": op["u"]}}),
            _ => json!({"update_ownership": own_msg(&self.lab, op)}),
        };
        let to = self.a("vest");
        let r = exec(&mut self.app, &by, &to, &m, &f);
        if r.0 {
            let now = self.now();
            match k {
                "del" => self.facts.push(now),
                "red" => self.reds.push((now, st(&op["v"]), st(&op["w"]))),
                "und" => { self.facts.push(now + self.ubs); self.ends.push((st(&op["v"]), now + self.ubs, u(&op["a"]).u128())); }
                "reg" => {
                    self.facts.push(op["t"].as_i64().unwrap());
                    if let Some(i) = self.real.iter().position(|r| op["v"] == r.v && op["t"] == r.t && op["a"] == r.n && op["u"] == r.u) { self.real.remove(i); }
                }
                _ => {}
            }
        }
        r
    }
    fn obs(&mut self) -> Value {
        let now = self.now();
        let mut o = json!({"now": clock(&self.app)});
        o["hold"] = map(["ustake", "una", "tok", "fake"].iter().map(|t| (t.to_string(), map(ACCTS.iter().map(|w| (w.to_string(), json!(self.hold(t, w))))))));
        o["own"] = own(&self.app, &self.lab, &self.a("vest"));
        let i = self.ask(json!({"info": {}}));
        let (k, ow) = match &i["status"] { Value::String(s) => (s.clone(), json!("0")), v => ("canceled".to_string(), v["canceled"]["owner_withdrawable"].clone()) };
        o["info"] = json!({"st": k, "ow": ow, "claimed": i["claimed"], "slashed": i["slashed"], "who": i["recipient"]});
        o["vested"] = json!([0, 4, 11].iter().map(|d| self.ask(json!({"vested": {"t": if *d == 0 { Value::Null } else { json!(ns(now + d)) }}}))).collect::<Vec<_>>());
        o["total"] = self.ask(json!({"total_to_vest": {}}));
        let d = self.ask(json!({"vest_duration": {}}));
        o["dur"] = if d.is_null() { json!("") } else { d };
        o["dist"] = json!([0, 4].iter().map(|d| { let x = self.ask(json!({"distributable": {"t": if *d == 0 { Value::Null } else { json!(ns(now + d)) }}})); if x.is_string() { x } else { json!("err") } }).collect::<Vec<_>>());
        let w = withdraw_address(&self.app, &self.lab.addr("vest"));
        o["waddr"] = json!(self.lab.label(&w));
        o["chain"] = map(VALS.iter().map(|v| { let x = self.chain(v); (v.to_string(), json!([x.0.to_string(), x.1.to_string(), x.2.to_string()])) }));
        o["stake"] = json!([-6, -2, 0, 1, 3, 8].iter().map(|d| {
            let t = ns(now + d);
            json!({"c": self.ask(json!({"stake": {"cardinality": {"t": t}}})), "t": self.ask(json!({"stake": {"total_staked": {"t": t}}})),
                "v": map(VALS.iter().map(|v| (v.to_string(), self.ask(json!({"stake": {"validator_staked": {"validator": v, "t": t}}})))))})
        }).collect::<Vec<_>>());
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let i = self.ask(json!({"info": {}}));
        let stake = i["denom"]["native"] == "ustake";
        let canceled = i["status"]["canceled"].is_object();
        let s = if stake { 1 } else { 0 };
        let d = if canceled { 0 } else { s };
        let k = r.wn(&[(if i["status"] == "unfunded" { 60 } else { 2 }, "fund"), (6, "give"), (30, "dist"), (if canceled { 1 } else { 5 }, "cancel"), (if canceled { 30 } else { 2 }, "wd"), (8, "offer"), (10, "accept"), (2, "renounce"),
            (2 + 50 * d, "del"), (1 + 22 * d, "red"), (2 + 45 * s, "und"), (8, "addr"), (1 + 10 * s, "rw"), (2 + 30 * s, "reg"), (14 * s, "slash"), (12 * s, "reward"), (45, "adv")]);
        let any = r.s(&["alice", "bob", "carol", "boss"]);
        let o = own(&self.app, &self.lab, &self.a("vest"));
        let owner = { let x = o["owner"].as_str().unwrap_or(""); if x.is_empty() || r.chance(1, 8) { any.clone() } else { x.to_string() } };
        let me = if r.chance(1, 10) { any.clone() } else { self.who.clone() };
        let v = if r.chance(1, 40) { "v9".to_string() } else { r.s(&VALS) };
        let num = |x: &Value| x.as_str().and_then(|x| x.parse::<u128>().ok()).unwrap_or(0);
        // an amount around one that makes sense
        let amt = |r: &mut Rng, n: u128| match r.below(8) { 0 => n.saturating_add(1), 1 | 2 => n, 3 => n / 2, 4 => 0.max(n.min(1)), _ => r.amt(n).max(n.min(1)) }.to_string();
        let has = self.hold("ustake", "vest").parse().unwrap_or(0);
        let ch = if VALS.contains(&v.as_str()) { self.chain(&v) } else { (3, 0, 0) };
        let pay = r.chance(1, 40);
        match k {
            "fund" => { let t = num(&self.ask(json!({"total_to_vest": {}}))); json!({"o": k, "by": r.s(&["boss", "boss", "boss", "alice"]), "t": r.wn(&[(7, "tok"), (1, "fake")]), "a": if r.chance(1, 5) { t + 1 } else { t }.max(1).to_string()}) }
            "give" => { let by = r.s(&["boss", "alice"]); let d = r.s(&["ustake", "una", "tok", "fake"]); let h: u128 = self.hold(&d, &by).parse().unwrap_or(0); json!({"o": k, "by": by, "d": d, "a": r.amt(h / 2).max(1).to_string()}) }
            "dist" => { let n = num(&self.ask(json!({"distributable": {"t": null}}))); let a = if r.chance(1, 2) { String::new() } else { amt(r, n) }; json!({"o": k, "by": any, "a": a}) }
            "cancel" => json!({"o": k, "by": owner}),
            "wd" => { let n = num(&i["status"]["canceled"]["owner_withdrawable"]); let a = if r.chance(1, 2) { String::new() } else { amt(r, n) }; json!({"o": k, "by": any, "a": a}) }
            "offer" | "accept" | "renounce" => gown(r, k, &o, &any, &["boss", "alice", "bob", "carol"], &clock(&self.app)),
            "del" => { let a = amt(r, has); json!({"o": k, "by": me, "v": v, "a": a, "pay": pay}) }
            "red" => { let a = amt(r, ch.0); json!({"o": k, "by": me, "v": v, "w": r.s(&VALS), "a": a, "pay": pay}) }
            "und" => { let a = amt(r, ch.0); json!({"o": k, "by": if canceled && r.chance(1, 2) { any } else { me }, "v": v, "a": a, "pay": pay}) }
            "addr" => json!({"o": k, "by": if canceled { owner } else { me }, "to": r.s(&["alice", "bob", "carol", "boss", "vest"])}),
            "rw" => json!({"o": k, "by": any, "v": v}),
            "slash" => {
                let un = r.chance(1, 2);
                let v = r.s(&VALS);
                let n = if un { first_end(&self.app, &self.lab.addr("vest"), &v).map(|x| x.1).unwrap_or(0) } else { self.chain(&v).0 };
                let a = amt(r, n);
                json!({"o": k, "v": v, "a": a, "u": un})
            }
            "reward" => json!({"o": k, "v": r.s(&VALS), "a": r.range(1, 30).to_string()}),
            "reg" => {
                let ok: Vec<Real> = self.real.iter().filter(|x| self.tidy(x)).cloned().collect();
                if !ok.is_empty() && r.chance(9, 10) {
                    let x = r.pick(&ok).clone();
                    json!({"o": k, "by": owner, "v": x.v, "t": x.t, "a": x.n, "u": x.u})
                } else {
                    // one that did not happen
                    let now = self.now();
                    let free: Vec<(String, i64, u128)> = self.ends.iter().filter(|e| e.1 > now && !self.touched(&e.0, now, e.1)).cloned().collect();
                    if !free.is_empty() && r.chance(1, 3) { let e = r.pick(&free).clone(); let a = amt(r, e.2.saturating_sub(1)); json!({"o": k, "by": owner, "v": e.0, "t": now, "a": a, "u": true}) }
                    else { let t = now - r.below(6) as i64 + if r.chance(1, 10) { 6 } else { 0 }; let a = amt(r, ch.0 / 3); json!({"o": k, "by": if r.chance(1, 3) { owner } else { any }, "v": v, "t": t, "a": a, "u": false}) }
                }
            }
            _ => { let s = [0, 1, 2, 5, 40][r.w(&[1, 6, 6, 3, 1])]; json!({"o": "adv", "n": r.range(0, 2), "s": s}) }
        }
    }
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let plain = if focus == "plain" { 6 } else { 1 };
    let kind = r.wn(&[(if focus == "plain" { 6 } else { 14 }, "stake"), (if focus == "stake" { 1 } else { 3 * plain }, "tok"), (if focus == "stake" { 1 } else { 2 * plain }, "una"), (1, "nope"), (1, "short")]);
    let total: u128 = match r.below(6) { 0 => 1 << 90, 1 => r.u128() >> 40, 2 => r.range(1, 12) as u128, _ => r.range(20, 2000) as u128 };
    let total = if r.chance(1, 40) { 0 } else { total };
    let dur = if r.chance(1, 40) { 0 } else { r.range(1, 80) };
    let start = if r.chance(1, 20) { r.below(3) as i64 - 1 - dur as i64 } else if r.chance(1, 3) { r.below(60) as i64 - 30 } else { 0 };
    let mut q = vec![];
    if r.chance(1, 3) {
        let n = r.range(2, 5);
        let mut x = r.below(8) + if r.chance(1, 30) { 0 } else { 1 };
        let mut ys: Vec<u128> = (0..n).map(|_| r.amt(total)).collect();
        if !r.chance(1, 30) { ys.sort(); }
        if !r.chance(1, 30) { ys[0] = 0; }
        if !r.chance(1, 30) { let l = ys.len(); ys[l - 1] = if r.chance(1, 20) { total + r.range(1, 3) as u128 } else { total }; }
        for y in &ys { q.push(json!({"x": x, "y": y.to_string()})); x += r.below(20) + if r.chance(1, 40) { 0 } else { 1 }; }
        if r.chance(1, 30) { q.truncate(1); }
    }
    let ubs = r.range(1, 12);
    let mut sent = match kind { "stake" => vec![("ustake", total)], "una" => vec![("una", total)], _ => vec![] };
    match r.below(40) { 0 => sent = vec![("una", total)], 1 => sent.clear(), 2 => sent = vec![("ustake", total + 1)], 3 => { sent = vec![("una", 1), ("ustake", total)] } _ => {} }
    sent.retain(|x| x.1 > 0);
    let given = start != 0 || r.chance(1, 2);
    json!({"kind": kind, "total": total.to_string(), "dur": dur, "start": start, "given": given, "frac": given && r.chance(1, 3), "q": q, "who": r.wn(&[(10, "alice"), (3, "bob"), (1, "boss")]), "owner": r.wn(&[(12, "boss"), (2, "carol"), (1, "")]),
        "ubs": if r.chance(1, 10) { ubs + 3 } else { ubs }, "cubs": ubs, "hold": (total + r.amt(total.max(20))).max(5).to_string(), "sent": sent.iter().map(|x| json!({"d": x.0, "n": x.1.to_string()})).collect::<Vec<_>>()})
}
