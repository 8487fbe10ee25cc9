//! dao-proposal-single under a real dao-dao-core.
use crate::common::*;
use cw_utils::Expiration;
use dao_proposal_single::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
use dao_proposal_single::query::{ProposalListResponse, ProposalResponse, VoteListResponse, VoteResponse};
use dao_voting::proposal::SingleChoiceProposeMsg;
use dao_voting::voting::{SingleChoiceAutoVote, Vote};
use kit::cosmwasm_std::{to_json_binary, Addr, WasmMsg};
use kit::cw_multi_test::ContractWrapper;
use kit::{env::*, json, serde_json, Rng, Value, World};

pub struct W {
    pub d: Dao,
    pub code: u64,
    pub tab: Vec<(Value, Value)>,
    pub mode: String,
    pub total: u128,
}
fn vote(s: &str) -> Vote {
    match s {
        "yes" => Vote::Yes,
        "no" => Vote::No,
        _ => Vote::Abstain,
    }
}
fn why(v: &Value) -> Option<String> {
    if v == "" { None } else { Some(st(v)) }
}
pub fn cfg_msg(d: &Dao, c: &Value) -> ExecuteMsg {
    ExecuteMsg::UpdateConfig {
        threshold: th(&c["th"]),
        max_voting_period: dur(&c["max"]),
        min_voting_period: opt_dur(&c["min"]),
        only_members_execute: c["ome"] == true,
        allow_revoting: c["revote"] == true,
        dao: d.addr(c["dao"].as_str().unwrap()),
        close_proposal_on_execution_failure: c["close"] == true,
        veto: veto(&c["veto"]),
    }
}
pub fn store(app: &mut App) -> u64 {
    app.store_code(Box::new(
        ContractWrapper::new(
            dao_proposal_single::contract::execute,
            dao_proposal_single::contract::instantiate,
            dao_proposal_single::contract::query,
        )
        .with_reply(dao_proposal_single::contract::reply)
        .with_migrate(dao_proposal_single::contract::migrate),
    ))
}
pub fn new(cfg: &Value) -> kit::anyhow::Result<Box<dyn World>> {
    let mut code = 0;
    let mut d = Dao::build(
        cfg,
        |app| {
            code = store(app);
            code
        },
        |mock_code| {
            to_json_binary(&InstantiateMsg {
                threshold: th(&cfg["th"]),
                max_voting_period: dur(&cfg["max"]),
                min_voting_period: opt_dur(&cfg["min"]),
                only_members_execute: cfg["ome"] == true,
                allow_revoting: cfg["revote"] == true,
                pre_propose_info: pp_info(cfg["pp"].as_str().unwrap(), mock_code),
                close_proposal_on_execution_failure: cfg["close"] == true,
                veto: veto(&cfg["veto"]),
            })
            .unwrap()
        },
    )?;
    for l in LISTENERS {
        let a = d.addr(l);
        if strs(&cfg["phooks"]).contains(&l.to_string()) {
            d.call("dao", &ExecuteMsg::AddProposalHook { address: a.clone() });
        }
        if strs(&cfg["vhooks"]).contains(&l.to_string()) {
            d.call("dao", &ExecuteMsg::AddVoteHook { address: a });
        }
    }
    let total = cfg["total"].as_str().map(|s| s.parse().unwrap()).unwrap_or(10);
    Ok(Box::new(W { d, code, tab: vec![], mode: cfg["mode"].as_str().unwrap_or("").to_string(), total }))
}
impl W {
    fn qs<T: serde::de::DeserializeOwned>(&self, m: &QueryMsg) -> Result<T, String> {
        self.d.app.wrap().query_wasm_smart(&self.d.prop, m).map_err(|e| e.to_string())
    }
    pub fn prop(&self, r: &ProposalResponse) -> Value {
        let p = &r.proposal;
        let (stt, tl) = jstatus(&p.status);
        let raw = serde_json::to_value(&p.msgs).unwrap();
        let msgs = if p.msgs.is_empty() { json!([]) } else {
            self.tab.iter().find(|(a, _)| *a == raw).map(|(_, b)| b.clone()).unwrap_or(raw)
        };
        json!({"id": r.id, "title": p.title, "by": self.d.label(p.proposer.as_str()), "start": p.start_height as i64 - H0 as i64,
            "min": p.min_voting_period.map(|e| jexp(&e)).unwrap_or(none()), "exp": jexp(&p.expiration),
            "th": jth(&p.threshold), "total": p.total_power.to_string(), "msgs": msgs,
            "status": stt, "tl": tl, "yes": p.votes.yes.to_string(), "no": p.votes.no.to_string(), "ab": p.votes.abstain.to_string(),
            "revote": p.allow_revoting, "veto": jveto(&p.veto)})
    }
    fn all(&self) -> Vec<ProposalResponse> {
        self.qs::<ProposalListResponse>(&QueryMsg::ListProposals { start_after: None, limit: Some(100) })
            .map(|x| x.proposals)
            .unwrap_or_default()
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        match op["o"].as_str().unwrap() {
            "propose" => {
                let d = &self.d;
                let msgs = d.msgs(&op["msgs"], |c| to_json_binary(&cfg_msg(d, c)).unwrap());
                self.tab.push((serde_json::to_value(&msgs).unwrap(), op["msgs"].clone()));
                let m = ExecuteMsg::Propose(SingleChoiceProposeMsg {
                    title: st(&op["title"]),
                    description: if op["big"] == true { "x".repeat(31_000) } else { "d".into() },
                    msgs,
                    proposer: if op["named"] == "" { None } else { Some(st(&op["named"])) },
                    vote: if op["av"] == "" { None } else {
                        Some(SingleChoiceAutoVote { vote: vote(op["av"].as_str().unwrap()), rationale: why(&op["why"]) })
                    },
                });
                self.d.call(&by, &m)
            }
            "vote" => self.d.call(&by, &ExecuteMsg::Vote {
                proposal_id: op["id"].as_u64().unwrap(), vote: vote(op["vote"].as_str().unwrap()), rationale: why(&op["why"]) }),
            "rationale" => self.d.call(&by, &ExecuteMsg::UpdateRationale { proposal_id: op["id"].as_u64().unwrap(), rationale: why(&op["why"]) }),
            "exec" => self.d.call(&by, &ExecuteMsg::Execute { proposal_id: op["id"].as_u64().unwrap() }),
            "close" => self.d.call(&by, &ExecuteMsg::Close { proposal_id: op["id"].as_u64().unwrap() }),
            "veto" => self.d.call(&by, &ExecuteMsg::Veto { proposal_id: op["id"].as_u64().unwrap() }),
            "cfg" => { let m = cfg_msg(&self.d, &op["c"]); self.d.call(&by, &m) }
            "policy" => {
                let m = ExecuteMsg::UpdatePreProposeInfo { info: self.d.pp_info(op["kind"].as_str().unwrap()) };
                let r = self.d.call(&by, &m);
                self.d.note_policy();
                r
            }
            "hook" => {
                let a = self.d.addr(op["who"].as_str().unwrap());
                let m = match (op["list"].as_str().unwrap(), op["add"] == true) {
                    ("prop", true) => ExecuteMsg::AddProposalHook { address: a },
                    ("prop", false) => ExecuteMsg::RemoveProposalHook { address: a },
                    (_, true) => ExecuteMsg::AddVoteHook { address: a },
                    (_, false) => ExecuteMsg::RemoveVoteHook { address: a },
                };
                self.d.call(&by, &m)
            }
            "migrate" => {
                let m = if op["k"] == "compat" { MigrateMsg::FromCompatible {} } else {
                    MigrateMsg::FromV1 { close_proposal_on_execution_failure: true, pre_propose_info: self.d.pp_info("anyone"), veto: None }
                };
                let w = WasmMsg::Migrate { contract_addr: self.d.prop.to_string(), new_code_id: self.code, msg: to_json_binary(&m).unwrap() };
                self.d.send(&by, w.into())
            }
            "setfail" => { self.d.set_fail(op["who"].as_str().unwrap(), op["on"] == true); (true, json!({})) }
            "power" => { self.d.set_power(op["who"].as_str().unwrap(), op["p"].as_str().unwrap()); (true, json!({})) }
            "active" => { self.d.set_active(op["on"] == true); (true, json!({})) }
            "adv" => { advance(&mut self.d.app, op); (true, json!({})) }
            o => panic!("op {o}"),
        }
    }
    fn obs(&mut self) -> Value {
        let c = self.d.prop.clone();
        let dec = |v: Vec<Value>| -> Vec<ProposalResponse> {
            v.into_iter().map(|x| serde_json::from_value(x).unwrap()).collect()
        };
        let fwd = match walk(&self.d.app, &c, "list_proposals", "start_after", 1 + self.d.app.block_info().height % 3) {
            Ok(v) => dec(v),
            Err(e) => return json!({"obs_error": e}),
        };
        let rev = match walk(&self.d.app, &c, "reverse_proposals", "start_before", 1 + (self.d.app.block_info().height + 1) % 3) {
            Ok(v) => dec(v),
            Err(e) => return json!({"obs_error": e}),
        };
        let mut agree = true;
        let mut ballots = vec![];
        for r in &fwd {
            agree &= self.qs::<ProposalResponse>(&QueryMsg::Proposal { proposal_id: r.id }).map(|x| x == *r).unwrap_or(false);
            let mut m: Vec<(String, Value)> = vec![];
            let mut after: Option<String> = None;
            let page = 1 + self.d.app.block_info().height % 3;
            loop {
                let v: VoteListResponse = match self.qs(&QueryMsg::ListVotes { proposal_id: r.id, start_after: after.clone(), limit: Some(page) }) {
                    Ok(v) => v,
                    Err(e) => return json!({"obs_error": e}),
                };
                if v.votes.is_empty() || v.votes.len() as u64 > page || m.len() > 50 {
                    break;
                }
                after = Some(v.votes.last().unwrap().voter.to_string());
                for b in v.votes {
                    let one: Result<VoteResponse, _> = self.qs(&QueryMsg::GetVote { proposal_id: r.id, voter: b.voter.to_string() });
                    agree &= one.map(|x| x.vote.as_ref() == Some(&b)).unwrap_or(false);
                    if m.iter().any(|(k, _)| *k == b.voter.as_str()) {
                        agree = false;
                    }
                    m.push((b.voter.to_string(), json!({"v": b.vote.to_string(), "w": b.power.to_string(), "why": b.rationale.unwrap_or_default()})));
                }
            }
            ballots.push(map(m));
        }
        let mut r2 = rev.clone();
        r2.reverse();
        agree &= r2 == fwd;
        let config: dao_proposal_single::state::Config = match self.qs(&QueryMsg::Config {}) {
            Ok(v) => v,
            Err(e) => return json!({"obs_error": e}),
        };
        let mut o = json!({
            "ids": fwd.iter().map(|r| r.id).collect::<Vec<_>>(),
            "agree": agree,
            "count": self.qs::<u64>(&QueryMsg::ProposalCount {}).unwrap(),
            "next": self.qs::<u64>(&QueryMsg::NextProposalId {}).unwrap(),
            "cfg": {"th": jth(&config.threshold), "max": jdur(&config.max_voting_period),
                "min": config.min_voting_period.map(|d| jdur(&d)).unwrap_or(none()),
                "ome": config.only_members_execute, "revote": config.allow_revoting, "close": config.close_proposal_on_execution_failure,
                "dao": self.d.label(config.dao.as_str()), "veto": jveto(&config.veto)},
            "policy": self.d.policy(),
            "phooks": self.d.hooks("proposal_hooks"),
            "vhooks": self.d.hooks("vote_hooks"),
            "logs": self.d.logs(), "ord": self.d.order(),
            "bal": self.d.bals(),
        });
        for (r, b) in fwd.iter().zip(ballots) {
            o[format!("p{}", r.id)] = self.prop(r);
            o[format!("b{}", r.id)] = b;
        }
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let ps = self.all();
        let now = self.d.app.block_info();
        let mode = self.mode.clone();
        let m = mode.as_str();
        // interesting instants
        let mut exps = vec![];
        for p in &ps {
            for e in [Some(p.proposal.expiration), p.proposal.min_voting_period] {
                match e {
                    Some(Expiration::AtHeight(h)) => exps.push((true, h)),
                    Some(Expiration::AtTime(t)) => exps.push((false, t.seconds())),
                    _ => {}
                }
            }
            if let dao_voting::status::Status::VetoTimelock { expiration } = p.proposal.status {
                for _ in 0..3 {
                    match expiration {
                        Expiration::AtHeight(h) => exps.push((true, h)),
                        Expiration::AtTime(t) => exps.push((false, t.seconds())),
                        _ => {}
                    }
                }
            }
        }
        exps.retain(|(h, x)| *x + 1 >= if *h { now.height } else { now.time.seconds() });
        let policy = self.d.policy();
        let open: Vec<u64> = ps.iter().filter(|p| !p.proposal.expiration.is_expired(&now)).map(|p| p.id).collect();
        let idof = |r: &mut Rng| -> u64 {
            if ps.is_empty() || r.chance(1, 40) { return r.below(12); }
            if r.chance(1, 2) { ps.last().unwrap().id } else { r.pick(&ps).id }
        };
        let voteid = |r: &mut Rng| -> u64 { if !open.is_empty() && r.chance(9, 10) { *r.pick(&open) } else { idof(r) } };
        let cur = q(&self.d.app, &self.d.vote, &json!("powers"));
        let user = |r: &mut Rng| {
            let mut x = r.s(&VOTERS);
            for _ in 0..3 {
                if cur[&x].as_str().unwrap_or("0") != "0" { break; }
                x = r.s(&VOTERS);
            }
            x
        };
        let actors = ["dao", "alice", "bob", "l1", "pp1", "zoe"];
        let wp = if ps.len() >= 10 { 0 } else if open.is_empty() { 60 } else { 5 };
        let wv = if open.is_empty() { 3 } else { 40 };
        let stat = |s: &str| ps.iter().any(|p| jstatus(&p.proposal.status).0 == s);
        let wx = if stat("passed") { 30 } else if stat("timelock") { 14 } else { 2 };
        let wc = if stat("rejected") { 8 } else if stat("passed") { 3 } else { 1 };
        let mut ws: Vec<(u32, &str)> = vec![(wp, "propose"), (wv, "vote"), (2, "rationale"), (wx, "exec"), (wc, "close"), (if stat("timelock") { 8 } else { 1 }, "veto"),
            (2, "cfg"), (1, "policy"), (2, "hook"), (1, "power"), (1, "active"), (14, "adv"), (1, "migrate")];
        match m {
            "veto" => ws.extend([(4, "veto"), (2, "exec")]),
            "cfg" => ws.extend([(14, "cfg"), (6, "power"), (3, "policy")]),
            "hooks" => ws.extend([(10, "hook"), (10, "setfail"), (4, "policy")]),
            "reexec" => ws.extend([(2, "exec")]),
            _ => {}
        }
        match r.wn(&ws) {
            "propose" => {
                let direct = if policy["k"] == "module" { r.chance(1, 10) } else { r.chance(9, 10) };
                let mut by = user(r);
                let mut named = String::new();
                if !direct {
                    by = if policy["k"] == "module" && r.chance(9, 10) { st(&policy["a"]) } else { r.s(&["l1", "pp1", "pp2"]) };
                    if !by.starts_with('l') && !self.d.mocks.iter().any(|(l, _)| *l == by) { by = "l1".into(); }
                    if r.chance(9, 10) { named = user(r); }
                } else if r.chance(1, 12) { named = user(r); }
                let mut msgs = vec![];
                let n = match r.below(6) { 0 => 0, 1..=3 => 1, 4 => 2, _ => 3 };
                for _ in 0..n {
                    let k = r.wn(&[(8, "pay"), (if m == "cfg" { 4 } else { 1 }, "cfg"), (if m == "reexec" { 6 } else { 0 }, "reexec"), (1, "fail")]);
                    msgs.push(match k {
                        "pay" => { let a = *r.pick(&[1u64, 3, 5, 5, 40, 60]); json!({"k": "pay", "to": r.s(&["payee1", "payee2"]), "a": a.to_string()}) }
                        "cfg" => json!({"k": "cfg", "c": gen_c(r, self.total, m)}),
                        "reexec" => json!({"k": "reexec", "id": if r.chance(1, 2) { ps.len() as u64 + 1 } else { idof(r) }}),
                        _ => json!({"k": "fail"}),
                    });
                }
                let av = if !r.chance(1, 4) { "" } else { *r.pick(&["yes", "no", "abstain"]) };
                json!({"o": "propose", "by": by, "named": named, "msgs": msgs, "av": av, "why": if av != "" && r.chance(1, 2) { "because" } else { "" },
                    "big": r.chance(1, 60), "title": format!("t{}", r.below(1000))})
            }
            "vote" => {
                let id = voteid(r);
                let mut by = if r.chance(1, 30) { "zoe".to_string() } else { user(r) };
                if let Some(p) = ps.iter().find(|p| p.id == id) {
                    // mostly members, mostly those who have not voted yet
                    let mut good = false;
                    for _ in 0..8 {
                        let pw = q(&self.d.app, &self.d.vote, &json!({"voting_power_at_height": {"address": by, "height": p.proposal.start_height}}));
                        let voted: Result<VoteResponse, _> = self.qs(&QueryMsg::GetVote { proposal_id: id, voter: by.clone() });
                        let fresh = voted.map(|v| v.vote.is_none()).unwrap_or(true) || p.proposal.allow_revoting;
                        if (pw["power"] != "0" && fresh) || r.chance(1, 16) { good = true; break; }
                        by = user(r);
                    }
                    if !good { return gen_adv(r, &self.d.app, &exps); }
                }
                let bias = (self.total % 3) as u32;
                let shy = if self.total / 3 % 4 == 1 { 7 } else { 2 };
                json!({"o": "vote", "by": by, "id": id,
                    "vote": r.wn(&[(5 + 4 * bias, "yes"), (4, "no"), (shy, "abstain")]), "why": r.s(&["", "", "x", "y"])})
            }
            "rationale" => json!({"o": "rationale", "by": user(r), "id": idof(r), "why": r.s(&["", "z", "w"])}),
            "exec" => {
                let ready: Vec<u64> = ps.iter().filter(|p| matches!(jstatus(&p.proposal.status).0.as_str().unwrap(), "passed" | "timelock")).map(|p| p.id).collect();
                let id = if !ready.is_empty() && r.chance(4, 5) { *r.pick(&ready) } else { idof(r) };
                let vetoer = self.vetoer(&ps, id);
                let by = if vetoer != "" && r.chance(1, 2) { vetoer } else { user(r) };
                json!({"o": "exec", "by": by, "id": id})
            }
            "close" => {
                let rej: Vec<u64> = ps.iter().filter(|p| p.proposal.status == dao_voting::status::Status::Rejected).map(|p| p.id).collect();
                json!({"o": "close", "by": user(r), "id": if !rej.is_empty() && r.chance(4, 5) { *r.pick(&rej) } else {
                    let passed: Vec<u64> = ps.iter().filter(|p| p.proposal.status == dao_voting::status::Status::Passed).map(|p| p.id).collect();
                    if !passed.is_empty() && r.chance(1, 2) { *r.pick(&passed) } else { idof(r) }
                }})
            }
            "veto" => {
                let tl: Vec<u64> = ps.iter().filter(|p| matches!(p.proposal.status, dao_voting::status::Status::VetoTimelock { .. })).map(|p| p.id).collect();
                let id = if !tl.is_empty() && r.chance(3, 5) { *r.pick(&tl) } else { idof(r) };
                let vetoer = self.vetoer(&ps, id);
                json!({"o": "veto", "by": if vetoer != "" && r.chance(4, 5) { vetoer } else { user(r) }, "id": id})
            }
            "cfg" => json!({"o": "cfg", "by": if r.chance(5, 6) { "dao".into() } else { self.act(r, &actors) }, "c": gen_c(r, self.total, m)}),
            "policy" => json!({"o": "policy", "by": if r.chance(5, 6) { "dao".into() } else { self.act(r, &actors) }, "kind": r.wn(&[(3, "anyone"), (5, "module"), (1, "broken")])}),
            "hook" => json!({"o": "hook", "by": if r.chance(6, 7) { "dao".into() } else { self.act(r, &actors) },
                "list": r.s(&["prop", "vote"]), "add": r.chance(3, 5), "who": r.s(&LISTENERS)}),
            "setfail" => {
                let cur: Vec<String> = LISTENERS.iter().filter(|l| self.failing(l)).map(|s| s.to_string()).collect();
                if !cur.is_empty() && r.chance(1, 3) {
                    json!({"o": "setfail", "who": r.pick(&cur).clone(), "on": false})
                } else if r.chance(1, 4) {
                    let pps: Vec<String> = self.d.mocks.iter().filter(|(l, _)| l.starts_with("pp")).map(|(l, _)| l.clone()).collect();
                    if pps.is_empty() { json!({"o": "adv", "n": 1, "s": 5}) }
                    else { json!({"o": "setfail", "who": *r.pick(&pps), "on": r.chance(1, 2)}) }
                } else {
                    json!({"o": "setfail", "who": r.s(&LISTENERS), "on": true})
                }
            }
            "power" => { let (p, _) = gen_powers(r, &json!({"k": "count", "p": "3"})); let w = user(r);
                let cur = self.total;
                if cur > u128::MAX / 8 { return json!({"o": "power", "who": w, "p": "0"}); }
                json!({"o": "power", "who": w, "p": match r.below(4) { 0 => "0".to_string(), 1 => (cur / 3).to_string(), _ => p[&w].as_str().filter(|s| s.len() < 30).unwrap_or("2").to_string() }}) }
            "active" => json!({"o": "active", "on": r.chance(2, 3)}),
            "migrate" => json!({"o": "migrate", "by": if r.chance(2, 3) { "dao".into() } else { self.act(r, &actors) }, "k": r.s(&["compat", "v1"])}),
            _ => gen_adv(r, &self.d.app, &exps),
        }
    }
}
impl W {
    fn act(&self, r: &mut Rng, xs: &[&str]) -> String {
        let a = r.s(xs);
        if a.starts_with("pp") && !self.d.mocks.iter().any(|(l, _)| *l == a) { "alice".into() } else { a }
    }
    fn failing(&self, l: &str) -> bool {
        let a = Addr::unchecked(self.d.addr(l));
        let _ = a;
        kit::mock::is_failing(&self.d.app, &a)
    }
    fn vetoer(&self, ps: &[ProposalResponse], id: u64) -> String {
        ps.iter().find(|p| p.id == id).and_then(|p| p.proposal.veto.as_ref()).map(|v| v.vetoer.clone()).unwrap_or_default()
    }
}
pub fn gen_veto(r: &mut Rng, unit: &str, m: &str) -> Value {
    if r.chance(if m == "veto" { 9 } else { 2 }, 10) {
        let uu = if r.chance(1, if m == "cfg" { 8 } else { 25 }) { if unit == "h" { "t" } else { "h" } } else { unit };
        json!({"on": true, "who": if r.chance(1, 40) { "VETOER".to_string() } else { r.s(&["erin", "alice", "vera"]) },
            "early": r.chance(1, 2), "before": r.chance(1, 2), "tl": gen_dur(r, uu, 0, if uu == unit { 6 } else { 2 })})
    } else { no_veto() }
}
/// a configuration as used at instantiation and by updates
pub fn gen_c(r: &mut Rng, total: u128, m: &str) -> Value {
    let unit = if r.chance(1, 2) { "h" } else { "t" };
    let bad = r.chance(1, if m == "cfg" { 8 } else { 25 });
    let max = match r.below(12) { 0 => 0, 1 => 1, _ => r.range(3, 10) };
    let min = match r.below(if m == "cfg" { 3 } else { 5 }) {
        0 => { let hi = if r.chance(1, 12) { max + 2 } else { max }; let uu = if r.chance(1, 20) { if unit == "h" { "t" } else { "h" } } else { unit }; gen_dur(r, uu, 0, hi) }
        _ => none(),
    };
    json!({"th": gen_th(r, total, bad), "max": {"k": unit, "v": max}, "min": min, "ome": r.chance(1, 2), "revote": r.chance(1, 3),
        "close": r.chance(1, 2), "veto": gen_veto(r, unit, m), "dao": if m == "cfg" && r.chance(1, 25) { "frank" } else { "dao" }})
}
pub fn cfg(r: &mut Rng, focus: &str) -> Value {
    let mode = if focus != "" && focus != "x" { focus.to_string() } else { r.wn(&[(6, "votes"), (3, "veto"), (3, "cfg"), (3, "hooks"), (1, "reexec")]).to_string() };
    let tot0: u128 = 10;
    let mut c = gen_c(r, tot0, &mode);
    if !r.chance(1, 12) {
        // mostly valid
        for _ in 0..20 {
            if c["dao"] == "dao" && c["veto"]["who"] != "VETOER"
                && (c["min"]["k"] == "none" || (c["min"]["k"] == c["max"]["k"] && c["min"]["v"].as_u64() <= c["max"]["v"].as_u64())) { break; }
            c = gen_c(r, tot0, &mode);
        }
    }
    c["dao"] = json!("dao");
    let (powers, total) = gen_powers(r, &c["th"]);
    if r.chance(1, 3) { c["th"] = gen_th(r, total, false); }
    c["powers"] = powers;
    c["total"] = json!(total.to_string());
    c["pp"] = json!(match mode.as_str() { "hooks" => r.s(&["anyone", "module", "module"]), "votes" | "cfg" | "veto" if r.chance(1, 4) => "module".into(), _ => "anyone".to_string() });
    c["fund"] = json!(*r.pick(&["0", "20", "100", "100000"]));
    let hk = mode == "hooks" || (mode != "reexec" && r.chance(1, 4));
    c["phooks"] = json!(if hk { (0..r.below(4) as usize).map(|i| LISTENERS[i]).collect::<Vec<_>>() } else { vec![] });
    c["vhooks"] = json!(if hk { (0..r.below(4) as usize).map(|i| LISTENERS[2 - i]).collect::<Vec<_>>() } else { vec![] });
    c["mode"] = json!(mode);
    c
}
