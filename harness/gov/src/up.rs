//! A proposal module that lived its first life as cw-proposal-single v1 and is then migrated.
use crate::common::*;
use crate::single::{cfg_msg, gen_veto, store, W};
use cw_utils::Expiration;
use dao_proposal_single::msg::MigrateMsg;
use kit::cosmwasm_std::{from_json, to_json_binary, Binary, CosmosMsg, WasmMsg};
use kit::cw_multi_test::ContractWrapper;
use kit::{env::*, json, serde_json, Rng, Value, World};

pub struct Up {
    w: W,
    done: bool,
    past: u64,
    len: u64,
}
fn raw(v: &Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
pub fn cfg(r: &mut Rng, _focus: &str) -> Value {
    let mode = r.s(&["votes", "hooks", "cfg"]);
    let mut c = crate::single::cfg(r, &mode);
    // v1 checks the same things
    while c["th"]["p"] == "0" || c["min"]["k"] != "none" && (c["min"]["k"] != c["max"]["k"] || c["min"]["v"].as_u64() > c["max"]["v"].as_u64()) || !th(&c["th"]).validate().is_ok() {
        c = crate::single::cfg(r, &mode);
    }
    c["pp"] = json!("anyone");
    c["dep"] = json!(*r.pick(&["", "", "", "0", "5"]));
    c["refund"] = json!(r.chance(1, 2));
    c["past"] = json!(r.below(26));
    c
}
pub fn new(cfg: &Value) -> kit::anyhow::Result<Box<dyn World>> {
    let mut code = 0;
    let mut tok = None;
    let mut d = Dao::build(
        cfg,
        |app| {
            let c20 = app.store_code(cw20_contract());
            let bals: Vec<(&str, u128)> = VOTERS.iter().map(|v| (*v, 1_000_000)).collect();
            tok = Some(new_cw20(app, c20, &bals));
            code = store(app);
            app.store_code(Box::new(
                ContractWrapper::new(cw_proposal_single_v1::contract::execute, cw_proposal_single_v1::contract::instantiate, cw_proposal_single_v1::contract::query)
                    .with_reply(cw_proposal_single_v1::contract::reply)
                    .with_migrate(cw_proposal_single_v1::contract::migrate),
            ))
        },
        |_| {
            raw(&json!({"threshold": serde_json::to_value(th(&cfg["th"])).unwrap(), "max_voting_period": dur(&cfg["max"]), "min_voting_period": opt_dur(&cfg["min"]),
                "only_members_execute": cfg["ome"], "allow_revoting": cfg["revote"],
                // the token's address: the first contract after the three listeners
                "deposit_info": if cfg["dep"] == "" { Value::Null } else { json!({"token": {"token": {"address": "contract3"}}, "deposit": cfg["dep"], "refund_failed_proposals": cfg["refund"]}) }}))
        },
    )?;
    let tok = tok.unwrap();
    assert_eq!(tok.as_str(), "contract3");
    for v in VOTERS {
        assert!(exec(&mut d.app, v, &tok, &json!({"increase_allowance": {"spender": d.prop.as_str(), "amount": "1000000"}}), &[]).0);
    }
    for l in LISTENERS {
        let a = d.addr(l);
        if strs(&cfg["phooks"]).contains(&l.to_string()) { d.call("dao", &json!({"add_proposal_hook": {"address": a}})); }
        if strs(&cfg["vhooks"]).contains(&l.to_string()) { d.call("dao", &json!({"add_vote_hook": {"address": a}})); }
    }
    let total = cfg["total"].as_str().map(|s| s.parse().unwrap()).unwrap_or(10);
    let w = W { d, code, tab: vec![], mode: cfg["mode"].as_str().unwrap_or("").to_string(), total };
    Ok(Box::new(Up { w, done: false, past: 0, len: cfg["past"].as_u64().unwrap() }))
}
fn e1(v: &Value) -> Value {
    let e: Option<Expiration> = from_json(raw(v)).unwrap();
    e.map(|e| jexp(&e)).unwrap_or(none())
}
impl Up {
    fn q(&self, m: Value) -> Value {
        q(&self.w.d.app, &self.w.d.prop, &m)
    }
    fn props(&self) -> Vec<Value> {
        self.q(json!({"list_proposals": {"limit": 100}}))["proposals"].as_array().cloned().unwrap_or_default()
    }
    /// something happens to the old module (or is refused)
    fn past(&mut self, r: &mut Rng) {
        let ps = self.props();
        let now = self.w.d.app.block_info();
        let id = |r: &mut Rng| if ps.is_empty() { 1 } else { r.pick(&ps)["id"].as_u64().unwrap() };
        let who = |r: &mut Rng| r.s(&VOTERS);
        let (by, m) = match r.below(if ps.is_empty() { 5 } else { 22 }) {
            0..=2 => {
                let n = *r.pick(&[0u64, 1, 1, 2]);
                let msgs: Vec<Value> = (0..n).map(|_| match r.below(8) {
                    0 => json!({"k": "fail"}),
                    1 => json!({"k": "cfg", "c": crate::single::gen_c(r, self.w.total, "votes")}),
                    _ => json!({"k": "pay", "to": r.s(&["payee1", "payee2"]), "a": r.s(&["1", "5", "60"])}),
                }).collect();
                let v = json!(msgs);
                let d = &self.w.d;
                let ms: Vec<CosmosMsg> = d.msgs(&v, |c| to_json_binary(&cfg_msg(d, c)).unwrap());
                self.w.tab.push((serde_json::to_value(&ms).unwrap(), v));
                (who(r), json!({"propose": {"title": format!("o{}", r.below(1000)), "description": "d", "msgs": ms}}))
            }
            3..=11 => (who(r), json!({"vote": {"proposal_id": id(r), "vote": r.s(&["yes", "yes", "no", "abstain"])}})),
            12 | 13 => (who(r), json!({"execute": {"proposal_id": id(r)}})),
            14 => (who(r), json!({"close": {"proposal_id": id(r)}})),
            15 => {
                let (k, l) = (r.s(&["add_proposal_hook", "add_vote_hook", "remove_proposal_hook", "remove_vote_hook"]), r.s(&LISTENERS));
                ("dao".to_string(), json!({k: {"address": self.w.d.addr(&l)}}))
            }
            16 => {
                let c = crate::single::gen_c(r, self.w.total, "votes");
                ("dao".to_string(), json!({"update_config": {"threshold": serde_json::to_value(th(&c["th"])).unwrap(), "max_voting_period": dur(&c["max"]), "min_voting_period": opt_dur(&c["min"]),
                    "only_members_execute": c["ome"], "allow_revoting": c["revote"], "dao": self.w.d.core.as_str(), "deposit_info": null}}))
            }
            17 => { let (w, p) = (who(r), r.s(&["0", "1", "3"])); if self.w.total < u128::MAX / 8 { self.w.d.set_power(&w, &p); } return; }
            _ => {
                let mut exps = vec![];
                for p in &ps {
                    if let Ok(e) = from_json::<Expiration>(raw(&p["proposal"]["expiration"])) {
                        match e {
                            Expiration::AtHeight(h) if h >= now.height => exps.push((true, h)),
                            Expiration::AtTime(t) if t.seconds() >= now.time.seconds() => exps.push((false, t.seconds())),
                            _ => {}
                        }
                    }
                }
                let a = gen_adv(r, &self.w.d.app, &exps);
                advance(&mut self.w.d.app, &a);
                return;
            }
        };
        self.w.d.call(&by, &m);
    }
    fn dump(&self) -> Value {
        let d = &self.w.d;
        let b = d.app.block_info();
        let powers = |h: Option<u64>| -> Value {
            map(VOTERS.iter().chain(["silent"].iter()).map(|v| (v.to_string(),
                q(&d.app, &d.vote, &json!({"voting_power_at_height": {"address": v, "height": h}}))["power"].clone())))
        };
        let (mut props, mut ballots) = (vec![], vec![]);
        for p in self.props() {
            let id = p["id"].as_u64().unwrap();
            // what is stored (queries already say what it would become)
            let mut key = vec![0u8, 9];
            key.extend(b"proposals");
            key.extend(id.to_be_bytes());
            let stored: Value = serde_json::from_slice(&d.app.wrap().query_wasm_raw(&d.prop, key).unwrap().unwrap()).unwrap();
            let p = &stored;
            let raw_msgs = &p["msgs"];
            let msgs = if raw_msgs.as_array().unwrap().is_empty() { json!([]) } else {
                self.w.tab.iter().find(|(a, _)| a == raw_msgs).map(|(_, b)| b.clone()).unwrap_or(raw_msgs.clone())
            };
            let start = p["start_height"].as_u64().unwrap();
            props.push(json!({"id": id, "title": p["title"], "by": d.label(p["proposer"].as_str().unwrap()), "start": start as i64 - H0 as i64,
                "min": e1(&p["min_voting_period"]), "exp": e1(&p["expiration"]), "th": jth(&from_json(raw(&p["threshold"])).unwrap()),
                "total": p["total_power"], "msgs": msgs, "status": p["status"], "yes": p["votes"]["yes"], "no": p["votes"]["no"], "ab": p["votes"]["abstain"],
                "revote": p["allow_revoting"], "snap": powers(Some(start)), "dep": p["deposit_info"]["deposit"].as_str().unwrap_or("0")}));
            let vs = self.q(json!({"list_votes": {"proposal_id": id, "limit": 30}}));
            ballots.push(map(vs["votes"].as_array().unwrap().iter().map(|v| (st(&v["voter"]), json!({"v": v["vote"], "w": v["power"], "why": ""})))));
        }
        let c = self.q(json!({"config": {}}));
        let jd = |v: &Value| -> Value { if v.is_null() { none() } else { jdur(&from_json(raw(v)).unwrap()) } };
        json!({"h": b.height - H0, "t": b.time.seconds() - T0, "props": props, "ballots": ballots,
            "cfg": {"th": jth(&from_json(raw(&c["threshold"])).unwrap()), "max": jd(&c["max_voting_period"]), "min": jd(&c["min_voting_period"]),
                "ome": c["only_members_execute"], "revote": c["allow_revoting"], "dao": d.label(c["dao"].as_str().unwrap())},
            "phooks": d.hooks("proposal_hooks"), "vhooks": d.hooks("vote_hooks"), "logs": d.logs(), "ord": d.order(), "pow": powers(None), "blk": powers(Some(b.height)), "bal": d.bals()})
    }
}
impl World for Up {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        match op["o"].as_str().unwrap() {
            "past" => {
                self.past += 1;
                let mut r = Rng::new(op["seed"].as_u64().unwrap(), 3);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.past(&mut r)));
                (true, json!({}))
            }
            "import" | "again" => {
                let m = if op["k"] == "compat" { MigrateMsg::FromCompatible {} } else {
                    MigrateMsg::FromV1 { close_proposal_on_execution_failure: op["close"] == true, pre_propose_info: self.w.d.pp_info(op["pp"].as_str().unwrap()), veto: veto(&op["veto"]) }
                };
                let x = WasmMsg::Migrate { contract_addr: self.w.d.prop.to_string(), new_code_id: self.w.code, msg: to_json_binary(&m).unwrap() };
                let r = self.w.d.send(op["by"].as_str().unwrap(), x.into());
                if r.0 { self.done = true; self.w.d.note_policy(); }
                r
            }
            _ => self.w.exec(op),
        }
    }
    fn obs(&mut self) -> Value {
        if !self.done { return json!({"phase": "old"}); }
        let mut o = self.w.obs();
        o["phase"] = json!("new");
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        if self.done && r.chance(1, 50) {
            return json!({"o": "again", "k": r.s(&["v1", "compat"]), "by": r.wn(&[(3, "dao"), (1, "alice")]), "close": true, "pp": "anyone", "veto": {"k": "none"}});
        }
        if self.done { return self.w.gen(r); }
        if self.past < self.len || r.chance(1, 2) { return json!({"o": "past", "seed": r.below(1 << 30)}); }
        let unit = self.q(json!({"config": {}}))["max_voting_period"].get("height").map(|_| "h").unwrap_or("t");
        let mode = if r.chance(1, 2) { "veto" } else { "" };
        json!({"o": "import", "by": if r.chance(1, 20) { "alice" } else { "dao" }, "close": r.chance(1, 2), "pp": r.wn(&[(5, "anyone"), (5, "module"), (1, "broken")]),
            "veto": gen_veto(r, unit, mode), "dump": self.dump()})
    }
}
