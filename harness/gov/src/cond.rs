//! dao-proposal-condorcet under a real dao-dao-core.
use crate::common::*;
use dao_proposal_condorcet::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use kit::cosmwasm_std::{to_json_binary, Binary};
use kit::cw_multi_test::ContractWrapper;
use kit::{env::*, json, serde_json, Rng, Value, World};

pub struct W {
    d: Dao,
    tab: Vec<(Value, Value)>,
    /// generator only: who voted on what
    voted: Vec<(u64, String)>,
    total: u128,
}
fn cfg_json(c: &Value) -> Value {
    let d = |v: &Value| if v["k"] == "none" { Value::Null } else { serde_json::to_value(dur(v)).unwrap() };
    json!({"quorum": pct(&c["quorum"]), "voting_period": d(&c["max"]), "min_voting_period": d(&c["min"]),
        "close_proposals_on_execution_failure": c["close"]})
}
fn cfg_msg(c: &Value) -> Binary {
    to_json_binary(&json!({"set_config": cfg_json(c)})).unwrap()
}
fn jd(v: &Value) -> Value {
    if v.is_null() { none() } else { serde_json::from_value(v.clone()).map(|d| jdur(&d)).unwrap_or(v.clone()) }
}
fn je(v: &Value) -> Value {
    if v.is_null() { none() } else { serde_json::from_value(v.clone()).map(|d| jexp(&d)).unwrap_or(v.clone()) }
}
fn jp(v: &Value) -> Value {
    serde_json::from_value(v.clone()).map(|d| jpct(&d)).unwrap_or(v.clone())
}
/// {"tag": x} or "tag"
fn tag(v: &Value) -> (String, Value) {
    if let Some(s) = v.as_str() { return (s.into(), Value::Null); }
    v.as_object().and_then(|o| o.iter().next()).map(|(k, x)| (k.clone(), x.clone())).unwrap_or_default()
}
pub fn new(cfg: &Value) -> kit::anyhow::Result<Box<dyn World>> {
    let d = Dao::build(
        cfg,
        |app| {
            app.store_code(Box::new(
                ContractWrapper::new(
                    dao_proposal_condorcet::contract::execute,
                    dao_proposal_condorcet::contract::instantiate,
                    dao_proposal_condorcet::contract::query,
                )
                .with_reply(dao_proposal_condorcet::contract::reply),
            ))
        },
        |_| { let m: InstantiateMsg = serde_json::from_value(cfg_json(cfg)).unwrap(); to_json_binary(&m).unwrap() },
    )?;
    let total = cfg["total"].as_str().map(|s| s.parse().unwrap()).unwrap_or(10);
    Ok(Box::new(W { d, tab: vec![], voted: vec![], total }))
}
impl W {
    fn next(&self) -> u64 {
        q(&self.d.app, &self.d.prop, &QueryMsg::NextProposalId {}).as_u64().unwrap_or(0)
    }
    fn prop(&self, id: u64) -> Value {
        q(&self.d.app, &self.d.prop, &QueryMsg::Proposal { id: id as u32 })
    }
    fn show(&self, v: &Value) -> Value {
        let p = &v["proposal"];
        let t = &v["tally"];
        let (st_, sv) = tag(&p["last_status"]);
        let (wk, wv) = tag(&t["winner"]);
        let choices: Vec<Value> = p["choices"].as_array().unwrap().iter().map(|c| {
            let raw = &c["msgs"];
            if raw == &json!([]) { json!([]) } else {
                self.tab.iter().find(|(a, _)| a == raw).map(|(_, b)| b.clone()).unwrap_or(raw.clone())
            }
        }).collect();
        let cells: Vec<Value> = t["m"]["cells"].as_array().unwrap().iter().map(|c| {
            let (k, x) = tag(c);
            let x = x.as_str().unwrap_or("0").to_string();
            json!(match k.as_str() { "positive" => x, "negative" => format!("-{x}"), _ => "0".into() })
        }).collect();
        json!({"id": p["id"], "by": self.d.label(p["proposer"].as_str().unwrap()), "quorum": jp(&p["quorum"]), "min": je(&p["min_voting_period"]),
            "close": p["close_on_execution_failure"], "total": p["total_power"], "choices": choices,
            "status": st_, "pick": sv["winner"].as_i64().unwrap_or(-1),
            "exp": je(&t["expiration"]), "start": t["start_height"].as_i64().unwrap() - H0 as i64, "left": t["power_outstanding"],
            "lead": wk, "who": wv.as_i64().unwrap_or(-1), "m": cells})
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        match op["o"].as_str().unwrap() {
            "propose" => {
                let mut choices = vec![];
                for c in op["choices"].as_array().unwrap() {
                    let msgs = self.d.msgs(c, cfg_msg);
                    self.tab.push((serde_json::to_value(&msgs).unwrap(), c.clone()));
                    choices.push(dao_proposal_condorcet::msg::Choice { msgs });
                }
                self.d.call(&by, &ExecuteMsg::Propose { choices })
            }
            "vote" => {
                let vote: Vec<u32> = op["rank"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
                let r = self.d.call(&by, &ExecuteMsg::Vote { proposal_id: op["id"].as_u64().unwrap() as u32, vote });
                self.voted.push((op["id"].as_u64().unwrap(), by));
                r
            }
            "exec" => self.d.call(&by, &ExecuteMsg::Execute { proposal_id: op["id"].as_u64().unwrap() as u32 }),
            "close" => self.d.call(&by, &ExecuteMsg::Close { proposal_id: op["id"].as_u64().unwrap() as u32 }),
            "cfg" => self.d.call(&by, &json!({"set_config": cfg_json(&op["c"])})),
            "power" => { self.d.set_power(op["who"].as_str().unwrap(), op["p"].as_str().unwrap()); (true, json!({})) }
            "adv" => { advance(&mut self.d.app, op); (true, json!({})) }
            o => panic!("op {o}"),
        }
    }
    fn obs(&mut self) -> Value {
        let n = self.next();
        let c = q(&self.d.app, &self.d.prop, &QueryMsg::Config {});
        let mut o = json!({"next": n,
            "cfg": {"quorum": jp(&c["quorum"]), "max": jd(&c["voting_period"]), "min": jd(&c["min_voting_period"]), "close": c["close_proposals_on_execution_failure"]},
            "dao": self.d.label(q(&self.d.app, &self.d.prop, &QueryMsg::Dao {}).as_str().unwrap_or("?")),
            "bal": self.d.bals()});
        for id in 1..n {
            let v = self.prop(id);
            o[format!("p{id}")] = if v.get("err").is_some() { v } else { self.show(&v) };
        }
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let n = self.next();
        let now = self.d.app.block_info();
        let ps: Vec<(u64, Value)> = (1..n).map(|i| (i, self.show(&self.prop(i)))).collect();
        let mut exps = vec![];
        let mut open = vec![];
        for (i, p) in &ps {
            let mut over = false;
            for e in ["exp", "min"] {
                let v = p[e]["v"].as_u64().unwrap_or(0);
                if p[e]["k"] == "h" { exps.push((true, v + H0)); if e == "exp" { over = now.height >= v + H0; } }
                if p[e]["k"] == "t" { exps.push((false, v + T0)); if e == "exp" { over = now.time.seconds() >= v + T0; } }
            }
            if !over { open.push(*i); }
        }
        exps.retain(|(h, x)| *x + 1 >= if *h { now.height } else { now.time.seconds() });
        let idof = |r: &mut Rng| -> u64 { if n <= 1 || r.chance(1, 30) { r.below(8) } else { r.range(1, n - 1) } };
        let stat = |s: &str| ps.iter().filter(|(_, p)| p["status"] == s).map(|(i, _)| *i).collect::<Vec<_>>();
        let (passed, rej) = (stat("passed"), stat("rejected"));
        let ws = [(if n > 9 { 0 } else if open.is_empty() { 50 } else { 6 }, "propose"), (if open.is_empty() { 2 } else { 40 }, "vote"),
            (if passed.is_empty() { 2 } else { 20 }, "exec"), (if rej.is_empty() { 1 } else { 8 }, "close"), (2, "cfg"), (2, "power"), (12, "adv")];
        match r.wn(&ws) {
            "propose" => {
                let k = match r.below(20) { 0 => 0, 1..=4 => 1, 5..=13 => 2, 14..=18 => 3, _ => 4 };
                let mut choices = vec![];
                for _ in 0..k {
                    let mut msgs = vec![];
                    for _ in 0..match r.below(6) { 0 => 0, 1..=3 => 1, 4 => 2, _ => 3 } {
                        msgs.push(match r.wn(&[(8, "pay"), (2, "cfg"), (1, "reexec"), (1, "fail")]) {
                            "pay" => { let a = *r.pick(&[1u64, 3, 5, 5, 40, 60]); json!({"k": "pay", "to": r.s(&["payee1", "payee2"]), "a": a.to_string()}) }
                            "cfg" => json!({"k": "cfg", "c": gen_c(r)}),
                            "reexec" => json!({"k": "reexec", "id": if r.chance(1, 2) { n } else { idof(r) }}),
                            _ => json!({"k": "fail"}),
                        });
                    }
                    choices.push(json!(msgs));
                }
                let able: Vec<&str> = VOTERS.iter().copied().filter(|v| self.d.power(v) != "0").collect();
                json!({"o": "propose", "by": if r.chance(1, 25) { "zoe".to_string() } else if able.is_empty() || r.chance(1, 15) { r.s(&VOTERS) } else { r.s(&able) }, "choices": choices})
            }
            "vote" => {
                let id = if !open.is_empty() && r.chance(14, 15) { *r.pick(&open) } else { idof(r) };
                let k = ps.iter().find(|(i, _)| *i == id).map(|(_, p)| p["choices"].as_array().unwrap().len() as u64).unwrap_or(3);
                let mut by = r.s(&VOTERS);
                for _ in 0..6 {
                    if !self.voted.contains(&(id, by.clone())) || r.chance(1, 12) { break; }
                    by = r.s(&VOTERS);
                }
                let mut rank: Vec<u64> = (0..k).collect();
                if !r.chance(1, 3) {
                    for i in (1..rank.len()).rev() { let j = r.below(i as u64 + 1) as usize; rank.swap(i, j); }
                }
                match r.below(40) {
                    0 => { rank.pop(); }
                    1 => rank.push(k),
                    2 => { if rank.len() > 1 { rank[1] = rank[0]; } }
                    3 => { rank[0] = k; }
                    _ => {}
                }
                json!({"o": "vote", "by": by, "id": id, "rank": rank})
            }
            "exec" => json!({"o": "exec", "by": if r.chance(1, 15) { "zoe".to_string() } else { r.s(&VOTERS) },
                "id": if !passed.is_empty() && r.chance(5, 6) { *r.pick(&passed) } else { idof(r) }}),
            "close" => json!({"o": "close", "by": r.s(&VOTERS), "id": if !rej.is_empty() && r.chance(5, 6) { *r.pick(&rej) } else { idof(r) }}),
            "cfg" => json!({"o": "cfg", "by": if r.chance(4, 5) { "dao".to_string() } else { r.s(&VOTERS) }, "c": gen_c(r)}),
            "power" => {
                let p = if self.total > u128::MAX / 8 { 0 } else { match r.below(3) { 0 => 0, 1 => self.total / 3, _ => r.below(8) as u128 } };
                json!({"o": "power", "who": r.s(&VOTERS), "p": p.to_string()})
            }
            _ => gen_adv(r, &self.d.app, &exps),
        }
    }
}
fn gen_c(r: &mut Rng) -> Value {
    let unit = if r.chance(1, 2) { "h" } else { "t" };
    let bad = r.chance(1, 15);
    let quorum = if bad { json!(*r.pick(&["1000000000000000001", "3000000000000000000"])) } else if r.chance(1, 5) { json!("0") } else { gen_pct(r, false) };
    let max = match r.below(12) { 0 => 0, 1 => 1, _ => r.range(3, 10) };
    let min = match r.below(4) {
        0 => { let hi = if r.chance(1, 12) { max + 2 } else { max }; let uu = if r.chance(1, 20) { if unit == "h" { "t" } else { "h" } } else { unit }; gen_dur(r, uu, 0, hi) }
        _ => none(),
    };
    json!({"quorum": quorum, "max": {"k": unit, "v": max}, "min": min, "close": r.chance(1, 2)})
}
pub fn cfg(r: &mut Rng, _focus: &str) -> Value {
    let mut c = gen_c(r);
    let (mut powers, mut total) = gen_powers(r, &json!({"k": "abs_pct", "p": c["quorum"]}));
    if r.chance(3, 5) {
        let k = *r.pick(&[1u64, 3, 7]);
        let v: Vec<u64> = VOTERS.iter().map(|_| r.below(k + 1)).collect();
        total = v.iter().sum::<u64>() as u128;
        powers = Value::Object(VOTERS.iter().zip(&v).map(|(n, x)| (n.to_string(), json!(x.to_string()))).collect());
    }
    c["powers"] = powers;
    c["total"] = json!(total.to_string());
    c["fund"] = json!(*r.pick(&["0", "20", "100", "100000"]));
    c
}
