//! Decisions in isolation: a proposal is placed in the module's storage with
//! arbitrary terms and votes and its status is queried at an arbitrary block.
use crate::common::*;
use cw_utils::Expiration;
use dao_voting::multiple_choice::{CheckedMultipleChoiceOption, MultipleChoiceOptionType, MultipleChoiceVotes, VotingStrategy};
use dao_voting::status::Status;
use kit::cosmwasm_std::testing::{mock_dependencies, mock_env};
use kit::cosmwasm_std::{from_json, Addr, Timestamp};
use kit::{env::*, json, Rng, Value, World};

const E18: u128 = 1_000_000_000_000_000_000;
struct W {
    single: bool,
    th: Value,
    total: u128,
    options: usize,
    seen: Value,
}
pub fn cfg(r: &mut Rng, mode: &str) -> Value {
    let single = mode == "single" || (mode != "multi" && r.chance(1, 2));
    let total = match r.below(9) {
        0 => r.below(4) as u128,
        1 => 10u128.pow(r.below(20) as u32),
        2 => u128::MAX - r.below(3) as u128,
        3 => r.u128(),
        4 => u128::MAX / 2 + r.below(3) as u128,
        5 => 100,
        _ => 1 + r.below(40) as u128,
    };
    let th = if single { gen_th(r, total, false) } else { let q = if r.chance(1, 4) { json!("0") } else { gen_pct(r, false) }; json!({"k": "q", "p": "", "q": q}) };
    json!({"single": single, "th": th, "total": total.to_string(), "options": 3 + r.below(3)})
}
pub fn new(c: &Value) -> kit::anyhow::Result<Box<dyn World>> {
    Ok(Box::new(W { single: c["single"] == true, th: c["th"].clone(), total: u(&c["total"]).u128(), options: c["options"].as_u64().unwrap() as usize, seen: json!({"st": "none", "tl": none()}) }))
}
fn exp(v: &Value) -> Expiration {
    let n = v["v"].as_i64().unwrap();
    if v["k"] == "h" { Expiration::AtHeight((H0 as i64 + n) as u64) } else { Expiration::AtTime(Timestamp::from_seconds((T0 as i64 + n) as u64)) }
}
fn status(p: &Value) -> Status {
    match p["status"].as_str().unwrap() {
        "open" => Status::Open,
        "timelock" => Status::VetoTimelock { expiration: exp(&p["tl"]) },
        "passed" => Status::Passed,
        _ => Status::Rejected,
    }
}
fn ask(single: bool, e: &Value) -> Result<Status, String> {
    let p = &e["p"];
    let mut deps = mock_dependencies();
    let mut env = mock_env();
    env.block.height = (H0 as i64 + e["now"]["h"].as_i64().unwrap()) as u64;
    env.block.time = Timestamp::from_seconds((T0 as i64 + e["now"]["t"].as_i64().unwrap()) as u64);
    let min = if p["min"]["k"] == "none" { None } else { Some(exp(&p["min"])) };
    if single {
        let x = dao_proposal_single::proposal::SingleChoiceProposal {
            title: "t".into(), description: "d".into(), proposer: Addr::unchecked("a"), start_height: 1,
            min_voting_period: min, expiration: exp(&p["exp"]), threshold: th(&p["th"]), total_power: u(&p["total"]), msgs: vec![],
            status: status(p), votes: dao_voting::voting::Votes { yes: u(&p["yes"]), no: u(&p["no"]), abstain: u(&p["ab"]) },
            allow_revoting: p["revote"] == true, veto: veto(&p["veto"]),
        };
        dao_proposal_single::state::PROPOSALS.save(&mut deps.storage, 1, &x).map_err(|e| e.to_string())?;
        let b = dao_proposal_single::contract::query(deps.as_ref(), env, dao_proposal_single::msg::QueryMsg::Proposal { proposal_id: 1 }).map_err(|e| e.to_string())?;
        Ok(from_json::<dao_proposal_single::query::ProposalResponse>(&b).map_err(|e| e.to_string())?.proposal.status)
    } else {
        let n = p["votes"].as_array().unwrap().len();
        let x = dao_proposal_multiple::proposal::MultipleChoiceProposal {
            title: "t".into(), description: "d".into(), proposer: Addr::unchecked("a"), start_height: 1,
            min_voting_period: min, expiration: exp(&p["exp"]), total_power: u(&p["total"]),
            choices: (0..n).map(|i| CheckedMultipleChoiceOption {
                index: i as u32, option_type: if i + 1 == n { MultipleChoiceOptionType::None } else { MultipleChoiceOptionType::Standard },
                title: format!("o{i}"), description: "d".into(), msgs: vec![], vote_count: u(&json!("0")) }).collect(),
            status: status(p), voting_strategy: VotingStrategy::SingleChoice { quorum: pct(&p["quorum"]) },
            votes: MultipleChoiceVotes { vote_weights: p["votes"].as_array().unwrap().iter().map(u).collect() },
            allow_revoting: p["revote"] == true, veto: veto(&p["veto"]),
        };
        dao_proposal_multiple::state::PROPOSALS.save(&mut deps.storage, 1, &x).map_err(|e| e.to_string())?;
        let b = dao_proposal_multiple::contract::query(deps.as_ref(), env, dao_proposal_multiple::msg::QueryMsg::Proposal { proposal_id: 1 }).map_err(|e| e.to_string())?;
        Ok(from_json::<dao_proposal_multiple::query::ProposalResponse>(&b).map_err(|e| e.to_string())?.proposal.status)
    }
}
fn near(r: &mut Rng, x: u128, max: u128) -> u128 {
    match r.below(6) {
        0 => x.saturating_sub(1),
        1 => x.saturating_add(1),
        2 => x.saturating_add(2),
        _ => x,
    }.min(max)
}
fn share(r: &mut Rng, of: u128) -> u128 {
    match r.below(7) {
        0 => of,
        1 => of / 2,
        2 => of / 2 + of % 2,
        3 => of / 3,
        4 => if of == 0 { 0 } else { r.u128() % of + 1 },
        5 => of.min(1),
        _ => 0,
    }
}
fn pv(v: &Value) -> u128 {
    if v == "maj" { E18 / 2 } else { v.as_str().and_then(|s| s.parse().ok()).unwrap_or(0) }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        match ask(self.single, op) {
            Ok(s) => {
                let (st, tl) = jstatus(&s);
                self.seen = json!({"st": st, "tl": tl});
                (true, json!(""))
            }
            Err(e) => (false, json!(e)),
        }
    }
    fn obs(&mut self) -> Value {
        self.seen.clone()
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        // the block against the ends of the vote, its minimum and the timelock
        let unit = r.s(&["h", "t"]);
        let ends = r.range(1, 20) as i64;
        let min = if r.chance(1, 2) { none() } else { json!({"k": unit, "v": r.range(0, ends as u64)}) };
        let lock = r.range(0, 10) as i64;
        let vet = if r.chance(1, 2) { no_veto() } else { json!({"on": true, "who": "zoe", "early": r.chance(1, 2), "before": r.chance(1, 2), "tl": {"k": unit, "v": lock}}) };
        let at = match r.below(6) {
            0 => min["v"].as_i64().unwrap(),
            1 => ends,
            2 => ends - 1,
            3 => ends + lock - r.below(2) as i64,
            4 => ends + lock + r.below(4) as i64,
            _ => r.range(0, 30) as i64,
        }.max(0);
        let other = r.range(0, 40) as i64;
        let now = if unit == "h" { json!({"h": at, "t": other}) } else { json!({"h": other, "t": at}) };
        let (status, tl) = match r.below(24) {
            0 => ("passed", none()),
            1 => ("rejected", none()),
            2 | 3 if vet["on"] == true => ("timelock", json!({"k": unit, "v": ends + lock})),
            _ => ("open", none()),
        };
        let t = self.total;
        let mut p = json!({"min": min, "exp": {"k": unit, "v": ends}, "total": t.to_string(), "status": status, "tl": tl,
            "revote": r.chance(1, 4), "veto": vet});
        if self.single {
            let ab = share(r, t);
            // how many vote at all
            let cast = if self.th["k"] == "tq" && r.chance(2, 3) { let q = muldiv(t, pv(&self.th["q"]).min(E18)); near(r, q, t) } else { share(r, t) };
            let ab = if r.chance(2, 3) { ab.min(cast) } else { ab };
            let voters = cast.saturating_sub(ab);
            let base = if r.chance(1, 2) { t - ab } else { voters };
            let need = if self.th["k"] == "count" { pv(&self.th["p"]) } else { muldiv(base, pv(&self.th["p"])) };
            let room = t - ab;
            let (yes, no) = match r.below(4) {
                0 => { let y = near(r, need, room); (y, voters.saturating_sub(y)) }
                1 => { let n = near(r, base.saturating_sub(need), room); (voters.saturating_sub(n), n) }
                2 => { let y = near(r, need, room); (y, share(r, room - y)) }
                _ => { let n = share(r, room); (share(r, room - n), n) }
            };
            p["th"] = self.th.clone();
            p["yes"] = json!(yes.to_string());
            p["no"] = json!(no.to_string());
            p["ab"] = json!(ab.to_string());
        } else {
            let mut v = vec![0u128; self.options];
            let q = muldiv(t, pv(&self.th["q"]).min(E18));
            let cast = match r.below(3) { 0 => near(r, q, t), 1 => t, _ => share(r, t) };
            let mut left = cast;
            let lead = r.below(self.options as u64) as usize;
            let second = r.below(self.options as u64) as usize;
            // the leader and the runner-up around the votes still missing
            match r.below(3) {
                0 => { let x = near(r, left / 2 + (t - cast) / 2, left); v[lead] = x; left -= x; if second != lead { v[second] += left; left = 0; } }
                1 => { let x = share(r, left); v[lead] += x; left -= x; let y = near(r, x, left); v[second] += y; left -= y; }
                _ => {}
            }
            for x in v.iter_mut() {
                if left == 0 { break; }
                let y = share(r, left);
                *x += y;
                left -= y;
            }
            p["quorum"] = self.th["q"].clone();
            p["votes"] = json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        }
        json!({"o": "decide", "p": p, "now": now})
    }
}
