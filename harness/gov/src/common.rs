//! Pieces shared by the proposal-module suites.
use cw_utils::{Duration, Expiration};
use dao_interface::state::{Admin, ModuleInstantiateInfo};
use dao_voting::threshold::{PercentageThreshold, Threshold};
use dao_voting::veto::VetoConfig;
use kit::cosmwasm_std::{
    to_json_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Decimal, WasmMsg,
};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{env::*, json, mock, Rng, Value};

pub const VOTERS: [&str; 6] = USERS;

pub fn dur(v: &Value) -> Duration {
    let n = v["v"].as_u64().unwrap();
    if v["k"] == "h" { Duration::Height(n) } else { Duration::Time(n) }
}
pub fn opt_dur(v: &Value) -> Option<Duration> {
    if v["k"] == "none" { None } else { Some(dur(v)) }
}
pub fn jdur(d: &Duration) -> Value {
    match d {
        Duration::Height(n) => json!({"k": "h", "v": n}),
        Duration::Time(n) => json!({"k": "t", "v": n}),
    }
}
pub fn jexp(e: &Expiration) -> Value {
    match e {
        Expiration::AtHeight(h) => json!({"k": "h", "v": *h as i64 - H0 as i64}),
        Expiration::AtTime(t) => {
            if t.nanos() % 1_000_000_000 != 0 {
                json!({"k": "ns", "v": t.nanos().to_string()})
            } else {
                json!({"k": "t", "v": t.seconds() as i64 - T0 as i64})
            }
        }
        Expiration::Never {} => json!({"k": "never", "v": 0}),
    }
}
pub fn none() -> Value {
    json!({"k": "none", "v": 0})
}
pub fn pct(v: &Value) -> PercentageThreshold {
    if v == "maj" {
        PercentageThreshold::Majority {}
    } else {
        PercentageThreshold::Percent(Decimal::raw(u(v).u128()))
    }
}
pub fn jpct(p: &PercentageThreshold) -> Value {
    match p {
        PercentageThreshold::Majority {} => json!("maj"),
        PercentageThreshold::Percent(d) => json!(d.atomics().to_string()),
    }
}
pub fn th(v: &Value) -> Threshold {
    match v["k"].as_str().unwrap() {
        "abs_pct" => Threshold::AbsolutePercentage { percentage: pct(&v["p"]) },
        "tq" => Threshold::ThresholdQuorum { threshold: pct(&v["p"]), quorum: pct(&v["q"]) },
        _ => Threshold::AbsoluteCount { threshold: u(&v["p"]) },
    }
}
pub fn jth(t: &Threshold) -> Value {
    match t {
        Threshold::AbsolutePercentage { percentage } => json!({"k": "abs_pct", "p": jpct(percentage), "q": ""}),
        Threshold::ThresholdQuorum { threshold, quorum } => json!({"k": "tq", "p": jpct(threshold), "q": jpct(quorum)}),
        Threshold::AbsoluteCount { threshold } => json!({"k": "count", "p": threshold.to_string(), "q": ""}),
    }
}
pub fn veto(v: &Value) -> Option<VetoConfig> {
    if v["on"] == true {
        Some(VetoConfig {
            timelock_duration: dur(&v["tl"]),
            vetoer: st(&v["who"]),
            early_execute: v["early"] == true,
            veto_before_passed: v["before"] == true,
        })
    } else {
        None
    }
}
pub fn no_veto() -> Value {
    json!({"on": false, "who": "", "early": false, "before": false, "tl": none()})
}
pub fn jveto(v: &Option<VetoConfig>) -> Value {
    match v {
        Some(v) => json!({"on": true, "who": v.vetoer, "early": v.early_execute, "before": v.veto_before_passed,
            "tl": jdur(&v.timelock_duration)}),
        None => no_veto(),
    }
}
/// proposal status as (kind, timelock end)
pub fn jstatus(s: &dao_voting::status::Status) -> (Value, Value) {
    use dao_voting::status::Status::*;
    let n = match s {
        Open => "open",
        Rejected => "rejected",
        Passed => "passed",
        Executed => "executed",
        Closed => "closed",
        ExecutionFailed => "execution_failed",
        VetoTimelock { expiration } => return (json!("timelock"), jexp(expiration)),
        Vetoed => "vetoed",
    };
    (json!(n), none())
}
pub fn norm(s: &str) -> String {
    if s.starts_with("veto_timelock") { "timelock".into() } else { s.into() }
}

/// the DAO: real core contract, driver-controlled voting power, one proposal module
pub struct Dao {
    pub app: App,
    pub core: Addr,
    pub vote: Addr,
    pub prop: Addr,
    pub mocks: Vec<(String, Addr)>,
    pub mock_code: u64,
    pub npp: usize,
}
pub const LISTENERS: [&str; 3] = ["l1", "l2", "l3"];

impl Dao {
    pub fn build(
        cfg: &Value,
        prop_code: impl FnOnce(&mut App) -> u64,
        prop_msg: impl FnOnce(u64) -> Binary,
    ) -> kit::anyhow::Result<Dao> {
        let mut app = app();
        let mock_code = app.store_code(Box::new(mock::Mock));
        let vote_code = app.store_code(Box::new(mock::MockVote));
        let core_code = app.store_code(Box::new(
            ContractWrapper::new(
                dao_dao_core::contract::execute,
                dao_dao_core::contract::instantiate,
                dao_dao_core::contract::query,
            )
            .with_reply(dao_dao_core::contract::reply),
        ));
        let mut mocks = vec![];
        for l in LISTENERS {
            let a = app.instantiate_contract(mock_code, Addr::unchecked("deployer"), &json!({}), &[], l, None)?;
            mocks.push((l.to_string(), a));
        }
        let pc = prop_code(&mut app);
        let core = app.instantiate_contract(
            core_code,
            Addr::unchecked("deployer"),
            &dao_interface::msg::InstantiateMsg {
                admin: None,
                name: "dao".into(),
                description: "d".into(),
                image_url: None,
                automatically_add_cw20s: true,
                automatically_add_cw721s: true,
                voting_module_instantiate_info: ModuleInstantiateInfo {
                    code_id: vote_code,
                    msg: Binary::from(json!({"powers": cfg["powers"]}).to_string().into_bytes()),
                    admin: Some(Admin::CoreModule {}),
                    funds: vec![],
                    label: "vote".into(),
                },
                proposal_modules_instantiate_info: vec![ModuleInstantiateInfo {
                    code_id: pc,
                    msg: prop_msg(mock_code),
                    admin: Some(Admin::CoreModule {}),
                    funds: vec![],
                    label: "prop".into(),
                }],
                initial_items: None,
                dao_uri: None,
            },
            &[],
            "dao",
            None,
        )?;
        let vote: Addr = app.wrap().query_wasm_smart(&core, &dao_interface::msg::QueryMsg::VotingModule {})?;
        let mods: Vec<dao_interface::state::ProposalModule> = app.wrap().query_wasm_smart(
            &core,
            &dao_interface::msg::QueryMsg::ProposalModules { start_after: None, limit: None },
        )?;
        mint(&mut app, core.as_str(), "ujuno", u(&cfg["fund"]).u128());
        let mut d = Dao { app, core, vote, prop: mods[0].address.clone(), mocks, mock_code, npp: 0 };
        d.note_policy();
        Ok(d)
    }
    /// the proposal module may have instantiated a new (mock) pre-propose module
    pub fn note_policy(&mut self) {
        let p = q(&self.app, &self.prop, &json!({"proposal_creation_policy": {}}));
        if let Some(a) = p["module"]["addr"].as_str() {
            if !self.mocks.iter().any(|(_, x)| x.as_str() == a) {
                self.npp += 1;
                self.mocks.push((format!("pp{}", self.npp), Addr::unchecked(a)));
            }
        }
    }
    pub fn policy(&self) -> Value {
        let p = q(&self.app, &self.prop, &json!({"proposal_creation_policy": {}}));
        match p["module"]["addr"].as_str() {
            Some(a) => json!({"k": "module", "a": self.label(a)}),
            None if p.get("anyone").is_some() => json!({"k": "anyone", "a": ""}),
            None => p,
        }
    }
    pub fn label(&self, a: &str) -> String {
        if a == self.core.as_str() {
            return "dao".into();
        }
        self.mocks.iter().find(|(_, x)| x.as_str() == a).map(|(l, _)| l.clone()).unwrap_or(a.to_string())
    }
    pub fn addr(&self, l: &str) -> String {
        if l == "dao" {
            return self.core.to_string();
        }
        self.mocks.iter().find(|(x, _)| x == l).map(|(_, a)| a.to_string()).unwrap_or(l.to_string())
    }
    pub fn pp_info(&self, kind: &str) -> dao_voting::pre_propose::PreProposeInfo {
        pp_info(kind, self.mock_code)
    }
    /// messages of a proposal
    pub fn msgs(&self, v: &Value, cfgmsg: impl Fn(&Value) -> Binary) -> Vec<CosmosMsg> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|m| match m["k"].as_str().unwrap() {
                "pay" => BankMsg::Send {
                    to_address: st(&m["to"]),
                    amount: vec![Coin { denom: "ujuno".into(), amount: u(&m["a"]) }],
                }
                .into(),
                "cfg" => WasmMsg::Execute { contract_addr: self.prop.to_string(), msg: cfgmsg(&m["c"]), funds: vec![] }.into(),
                "reexec" => WasmMsg::Execute {
                    contract_addr: self.prop.to_string(),
                    msg: Binary::from(json!({"execute": {"proposal_id": m["id"]}}).to_string().into_bytes()),
                    funds: vec![],
                }
                .into(),
                _ => WasmMsg::Execute { contract_addr: "nosuchcontract".into(), msg: to_json_binary(&"x").unwrap(), funds: vec![] }.into(),
            })
            .collect()
    }
    /// run as a user, the DAO, or (via forwarding) a mock contract
    pub fn call<T: serde::Serialize>(&mut self, by: &str, msg: &T) -> (bool, Value) {
        let prop = self.prop.clone();
        let m: CosmosMsg = WasmMsg::Execute { contract_addr: prop.to_string(), msg: to_json_binary(msg).unwrap(), funds: vec![] }.into();
        self.send(by, m)
    }
    pub fn send(&mut self, by: &str, m: CosmosMsg) -> (bool, Value) {
        if let Some((_, a)) = self.mocks.iter().find(|(l, _)| l == by) {
            let a = a.clone();
            let fwd = json!({"forward": mock::msg_json(&m)});
            res(self.app.execute_contract(Addr::unchecked("relayer"), a, &fwd, &[]))
        } else {
            let by = self.addr(by);
            res(run(&mut self.app, &by, m))
        }
    }
    pub fn set_fail(&mut self, who: &str, on: bool) {
        let a = Addr::unchecked(self.addr(who));
        self.app.execute_contract(Addr::unchecked("deployer"), a, &json!({"set_fail": on}), &[]).unwrap();
    }
    pub fn set_power(&mut self, who: &str, p: &str) {
        let v = self.vote.clone();
        self.app.execute_contract(Addr::unchecked("deployer"), v, &json!({"set": {"who": who, "p": p}}), &[]).unwrap();
    }
    /// the power the voting module reports now
    pub fn power(&self, who: &str) -> String {
        let v = q(&self.app, &self.vote, &json!({"voting_power_at_height": {"address": self.addr(who)}}));
        v["power"].as_str().unwrap_or("0").to_string()
    }
    pub fn set_active(&mut self, on: bool) {
        let v = self.vote.clone();
        self.app.execute_contract(Addr::unchecked("deployer"), v, &json!({"set_active": on}), &[]).unwrap();
    }
    pub fn hooks(&self, kind: &str) -> Value {
        let v = q(&self.app, &self.prop, &json!({kind: {}}));
        match v["hooks"].as_array() {
            Some(a) => Value::Array(a.iter().map(|x| json!(self.label(x.as_str().unwrap()))).collect()),
            None => v,
        }
    }
    pub fn order(&self) -> Value {
        mock::order(&self.app, self.mocks.iter().map(|(l, a)| (l.as_str(), a.to_string())))
    }
    /// notifications received by every mock: count and the last six
    pub fn logs(&self) -> Value {
        map(self.mocks.iter().map(|(l, a)| {
            let log = mock::mock_log(&self.app, a);
            let n = log.len();
            let last: Vec<Value> = log[n.saturating_sub(6)..]
                .iter()
                .map(|e| {
                    let m = &e["msg"];
                    let pre = if e["from"] == self.prop.as_str() { "" } else { "?" };
                    let s = if let Some(x) = m["proposal_hook"].get("new_proposal") {
                        format!("new:{}:{}", x["id"], self.label(x["proposer"].as_str().unwrap_or("?")))
                    } else if let Some(x) = m["proposal_hook"].get("proposal_status_changed") {
                        format!("chg:{}:{}:{}", x["id"], norm(x["old_status"].as_str().unwrap()), norm(x["new_status"].as_str().unwrap()))
                    } else if let Some(x) = m["vote_hook"].get("new_vote") {
                        format!("vote:{}:{}:{}", x["proposal_id"], x["voter"].as_str().unwrap(), x["vote"].as_str().unwrap())
                    } else if let Some(x) = m.get("proposal_completed_hook") {
                        let s = &x["new_status"];
                        format!("done:{}:{}", x["proposal_id"], s.as_str().map(|x| x.to_string()).unwrap_or(s.to_string()))
                    } else {
                        m.to_string()
                    };
                    json!(format!("{pre}{s}"))
                })
                .collect();
            (l.clone(), json!({"n": n, "last": last}))
        }))
    }
    pub fn bals(&self) -> Value {
        json!({"dao": bal(&self.app, &self.core, "ujuno"),
               "payee1": bal(&self.app, &Addr::unchecked("payee1"), "ujuno"),
               "payee2": bal(&self.app, &Addr::unchecked("payee2"), "ujuno")})
    }
}
pub fn pp_info(kind: &str, mock_code: u64) -> dao_voting::pre_propose::PreProposeInfo {
    use dao_voting::pre_propose::PreProposeInfo::*;
    match kind {
        "anyone" => AnyoneMayPropose {},
        k => ModuleMayPropose {
            info: ModuleInstantiateInfo {
                // "broken": instantiation fails
                code_id: if k == "broken" { 9999 } else { mock_code },
                msg: Binary::from(b"{}".to_vec()),
                admin: None,
                funds: vec![],
                label: "pp".into(),
            },
        },
    }
}
/// all pages of a paginated list of proposals
pub fn walk(app: &App, c: &Addr, kind: &str, cursor: &str, limit: u64) -> Result<Vec<Value>, Value> {
    let mut out: Vec<Value> = vec![];
    for _ in 0..60 {
        let mut args = json!({"limit": limit});
        if let Some(l) = out.last() {
            args[cursor] = l["id"].clone();
        }
        let v = q(app, c, &json!({kind: args}));
        let Some(a) = v["proposals"].as_array() else { return Err(v) };
        if a.len() as u64 > limit {
            return Err(json!("page too long"));
        }
        if a.is_empty() {
            break;
        }
        out.extend(a.iter().cloned());
    }
    Ok(out)
}

// ---------- generators ----------
pub const PCTS: [&str; 16] = [
    "500000000000000000", "333333333333333333", "333333333333333334", "666666666666666667", "666666666666666666",
    "1000000000000000000", "100000000000000000", "10000000000000000", "750000000000000000", "200000000000000000",
    "1", "999999999999999999", "500000000000000001", "499999999999999999", "250000000000000000", "340000000000000000",
];
pub fn gen_pct(r: &mut Rng, bad: bool) -> Value {
    if bad {
        return json!(*r.pick(&["0", "1000000000000000001", "2000000000000000000"]));
    }
    match r.below(9) {
        0 | 1 => json!("maj"),
        4 => json!("1000000000000000000"),
        2 => json!((1 + r.u128() % 1_000_000_000_000_000_000).to_string()),
        3 => json!((10_000_000_000_000_000 * (1 + r.below(100) as u128)).to_string()),
        _ => json!(*r.pick(&PCTS)),
    }
}
pub fn gen_th(r: &mut Rng, total: u128, bad: bool) -> Value {
    match r.below(5) {
        0 => json!({"k": "abs_pct", "p": gen_pct(r, bad), "q": ""}),
        1 => {
            let n = if bad { 0 } else { match r.below(4) { 0 => 1, 1 => total.max(1), 2 => (total / 2).max(1), _ => 1 + r.u128() % total.saturating_add(1).max(1).min(u128::MAX - 1) } };
            json!({"k": "count", "p": n.to_string(), "q": ""})
        }
        _ => {
            let (b1, b2) = if bad { (r.chance(1, 2), true) } else { (false, false) };
            let q = if b2 && !b1 { json!(*r.pick(&["1000000000000000001", "3000000000000000000"])) }
                else if !bad && r.chance(1, 8) { json!("0") } else { gen_pct(r, false) };
            json!({"k": "tq", "p": gen_pct(r, b1), "q": q})
        }
    }
}
fn pctval(v: &Value) -> u128 {
    if v == "maj" { 500_000_000_000_000_000 } else { v.as_str().and_then(|s| s.parse().ok()).unwrap_or(0) }
}
pub fn muldiv(t: u128, p: u128) -> u128 {
    // t * p / 1e18 without overflow
    let e = 1_000_000_000_000_000_000u128;
    (t / e) * p + ((t % e) as u128).checked_mul(p).map(|x| x / e).unwrap_or_else(|| (t % e) / e * p)
}
/// powers for the six users, aimed at the boundary of the threshold
pub fn gen_powers(r: &mut Rng, t: &Value) -> (Value, u128) {
    let total: u128 = match r.below(12) {
        0 => 0,
        1 => 1,
        2 | 3 => 1 + r.below(6) as u128,
        4 | 5 => 10u128.pow(r.below(7) as u32),
        6 => 1_000_000_000_000_000_000 * (1 + r.below(9) as u128),
        7 => u128::MAX,
        8 => u128::MAX / 2 + r.below(3) as u128,
        _ => 1 + r.below(1000) as u128,
    };
    let mut left = total;
    let mut p: Vec<u128> = vec![0; 6];
    let key = if t["k"] == "count" { t["p"].as_str().unwrap().parse().unwrap_or(1) } else {
        let pv = pctval(if r.chance(1, 2) || t["k"] != "tq" { &t["p"] } else { &t["q"] });
        if pv > 1_000_000_000_000_000_000 { total } else { muldiv(total, pv) }
    };
    let k1 = match r.below(5) { 0 => key.saturating_sub(1), 1 | 2 => key.saturating_add(1), _ => key }.min(left);
    p[0] = k1;
    left -= k1;
    // sometimes most of the power never votes
    let silent = if r.chance(1, 5) { left - left / (2 + r.below(9) as u128) } else { 0 };
    left -= silent;
    for i in 1..6 {
        if left == 0 { break; }
        let x = match r.below(6) { 0 => 1, 1 => left, 2 => left / 2, 3 => left / 2 + left % 2, 4 => 0, _ => r.u128() % left + 1 }.min(left);
        p[i] = x;
        left -= x;
    }
    // `left` stays with a silent holder
    let mut m = serde_json::Map::new();
    for i in 0..6 {
        if p[i] > 0 || r.chance(1, 2) {
            m.insert(VOTERS[i].into(), json!(p[i].to_string()));
        }
    }
    m.insert("silent".into(), json!((left + silent).to_string()));
    (Value::Object(m), total)
}
use kit::serde_json;
pub fn gen_dur(r: &mut Rng, unit: &str, lo: u64, hi: u64) -> Value {
    json!({"k": unit, "v": r.range(lo, hi)})
}
/// advance by little, or exactly to / around one of the given expirations
pub fn gen_adv(r: &mut Rng, app: &App, exps: &[(bool, u64)]) -> Value {
    let b = app.block_info();
    if !exps.is_empty() && r.chance(3, 5) {
        let (is_h, at) = *r.pick(exps);
        let now = if is_h { b.height } else { b.time.seconds() };
        if at >= now {
            let d = match r.below(4) { 0 => (at - now).saturating_sub(1), 1 => at - now + 1, _ => at - now };
            return if is_h { json!({"o": "adv", "n": d, "s": d * 5}) } else { json!({"o": "adv", "n": (d / 5).max(1), "s": d}) };
        }
    }
    let n = r.range(0, 3);
    json!({"o": "adv", "n": n, "s": n * 5 + r.below(2)})
}
