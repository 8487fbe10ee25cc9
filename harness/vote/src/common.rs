//! A DAO around a voting module; queries at heights; shared configuration shapes.
use kit::cosmwasm_std::{Addr, Binary, Coin, DepsMut, Deps, Empty, Env, MessageInfo, Reply, Response, BankMsg, CosmosMsg, WasmMsg};
use kit::cw_multi_test::{AppResponse, Contract, ContractWrapper, Executor};
use kit::{anyhow, env::*, json, mock, Value};

pub const HOOKS: [&str; 2] = ["l1", "l2"];
pub fn b(v: &Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
pub fn modinfo(code: u64, msg: Value) -> Value {
    json!({"code_id": code, "msg": b(&msg), "admin": {"core_module": {}}, "funds": [], "label": "m"})
}
pub fn core_code(app: &mut App) -> u64 {
    app.store_code(Box::new(ContractWrapper::new(dao_dao_core::contract::execute, dao_dao_core::contract::instantiate, dao_dao_core::contract::query).with_reply(dao_dao_core::contract::reply)))
}
/// a DAO with the given voting module and a stand-in proposal module
pub fn dao(app: &mut App, code: u64, mock_code: u64, vote: Value, lab: &mut Labels) -> anyhow::Result<()> {
    let a = app.instantiate_contract(code, Addr::unchecked("deployer"), &json!({"admin": null, "name": "dao", "description": "d", "image_url": null,
        "automatically_add_cw20s": false, "automatically_add_cw721s": false, "voting_module_instantiate_info": vote,
        "proposal_modules_instantiate_info": [modinfo(mock_code, json!({}))], "initial_items": null, "dao_uri": null}), &[], "dao", None)?;
    lab.add(&a, "dao");
    let v = q(app, &a, &json!({"voting_module": {}}));
    lab.add(&Addr::unchecked(st(&v)), "vote");
    Ok(())
}
pub fn listeners(app: &mut App, mock_code: u64, lab: &mut Labels) {
    for l in HOOKS {
        let a = app.instantiate_contract(mock_code, Addr::unchecked("deployer"), &json!({}), &[], l, None).unwrap();
        lab.add(&a, l);
    }
}
/// the address the n-th next contract will get
pub fn future(app: &mut App, mock_code: u64, n: u64) -> String {
    let a = app.instantiate_contract(mock_code, Addr::unchecked("deployer"), &json!({}), &[], "probe", None).unwrap();
    let k: u64 = a.as_str().trim_start_matches("contract").parse().unwrap();
    format!("contract{}", k + n)
}
pub fn dur(v: &Value) -> Value {
    match v["k"].as_str().unwrap() { "h" => json!({"height": v["v"]}), "t" => json!({"time": v["v"]}), _ => Value::Null }
}
pub fn jdur(v: &Value) -> Value {
    if v.is_null() { return json!({"k": "none", "v": 0}); }
    if let Some(h) = v.get("height") { json!({"k": "h", "v": h}) } else { json!({"k": "t", "v": v["time"]}) }
}
/// percentages are written as the integer they are stored as (10^18 = 100%)
pub fn thr(v: &Value) -> Value {
    match v["k"].as_str().unwrap() {
        "pct" => json!({"percentage": {"percent": dec(&st(&v["v"]))}}),
        "cnt" => json!({"absolute_count": {"count": v["v"]}}),
        _ => Value::Null,
    }
}
pub fn dec(atomics: &str) -> String {
    let s = format!("{:0>19}", atomics);
    format!("{}.{}", &s[..s.len() - 18], &s[s.len() - 18..])
}
pub fn undec(s: &str) -> String {
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    let x = format!("{i}{f:0<18}");
    let t = x.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}
pub fn jthr(v: &Value) -> Value {
    let t = &v["active_threshold"];
    if t.is_null() { return if v.get("err").is_some() { v.clone() } else { json!({"k": "none", "v": "0"}) }; }
    if let Some(p) = t["percentage"]["percent"].as_str() { json!({"k": "pct", "v": undec(p)}) } else { json!({"k": "cnt", "v": t["absolute_count"]["count"]}) }
}
/// claim times relative to the start of the run
pub fn jexp(v: &Value) -> Value {
    if let Some(h) = v["at_height"].as_u64() { json!({"k": "h", "v": h as i64 - H0 as i64}) }
    else if let Some(t) = v["at_time"].as_str() { json!({"k": "t", "v": (t.parse::<u64>().unwrap() / 1_000_000_000) as i64 - T0 as i64}) }
    else { v.clone() }
}
/// powers as the DAO reports them, at a height or now
pub fn powers(app: &App, lab: &Labels, who: &[&str], h: Option<u64>) -> (Value, Value) {
    let d = Addr::unchecked(lab.addr("dao"));
    let mut heights = vec![];
    let mut get = |v: Value| { heights.push(v["height"].clone()); v["power"].clone() };
    let p = map(who.iter().map(|w| (w.to_string(), get(q(app, &d, &json!({"voting_power_at_height": {"address": lab.addr(w), "height": h}}))))));
    let t = get(q(app, &d, &json!({"total_power_at_height": {"height": h}})));
    let want = json!(h.unwrap_or(app.block_info().height));
    (p, if heights.iter().all(|x| *x == want) { t } else { json!({"heights": heights}) })
}
pub fn at(app: &App, lab: &Labels, who: &[&str], off: i64) -> Value {
    let (p, t) = powers(app, lab, who, Some((H0 as i64 + off) as u64));
    json!({"h": off, "p": p, "t": t})
}
pub fn logs(app: &App, lab: &Labels, show: impl Fn(&Value) -> String) -> Value {
    map(HOOKS.iter().map(|l| {
        let v = mock::mock_log(app, &Addr::unchecked(lab.addr(l)));
        let last = v.last().map(|e| format!("{}:{}", lab.label(e["from"].as_str().unwrap()), show(&e["msg"]))).unwrap_or_default();
        (l.to_string(), json!({"n": v.len(), "last": last}))
    }))
}
/// who was told, by the latest notification
pub fn order(app: &App, lab: &Labels) -> Value {
    mock::order(app, HOOKS.iter().map(|l| (*l, lab.addr(l))))
}
pub fn labels(lab: &Labels, v: &Value) -> Value {
    v.as_array().map(|a| Value::Array(a.iter().map(|x| json!(lab.label(x.as_str().unwrap()))).collect())).unwrap_or(v.clone())
}
/// several messages of one sender as one transaction
pub fn multi(app: &mut App, by: &str, msgs: Vec<CosmosMsg>) -> (bool, Value) {
    let r: anyhow::Result<Vec<AppResponse>> = app.execute_multi(Addr::unchecked(by), msgs);
    match r { Ok(_) => (true, json!({})), Err(e) => (false, json!({"err": e.root_cause().to_string()})) }
}
pub fn wexec(c: &str, m: &Value, f: Vec<Coin>) -> CosmosMsg {
    WasmMsg::Execute { contract_addr: c.into(), msg: b(m), funds: f }.into()
}
/// answers every call with the data it is given
pub struct Factory;
impl Contract<Empty> for Factory {
    fn instantiate(&self, _: DepsMut, _: Env, _: MessageInfo, _: Vec<u8>) -> anyhow::Result<Response> { Ok(Response::new()) }
    fn execute(&self, _: DepsMut, _: Env, _: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        let v: Value = kit::serde_json::from_slice(&m)?;
        Ok(if v["data"].is_null() { Response::new() } else { Response::new().set_data(b(&v["data"])) })
    }
    fn query(&self, _: Deps, _: Env, _: Vec<u8>) -> anyhow::Result<Binary> { anyhow::bail!("no") }
    fn sudo(&self, _: DepsMut, _: Env, _: Vec<u8>) -> anyhow::Result<Response> { anyhow::bail!("no") }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> anyhow::Result<Response> { anyhow::bail!("no") }
    fn migrate(&self, _: DepsMut, _: Env, _: Vec<u8>) -> anyhow::Result<Response> { anyhow::bail!("no") }
}
pub fn burn(by: &str, app: &mut App, c: Vec<Coin>) -> (bool, Value) {
    res(run(app, by, BankMsg::Burn { amount: c }.into()))
}
pub fn gdur(r: &mut kit::Rng, zero: u64) -> Value {
    match r.below(7) {
        0 | 1 => json!({"k": "none", "v": 0}),
        2..=4 => json!({"k": "h", "v": if r.chance(zero, 20) { 0 } else { r.range(1, 6) }}),
        _ => json!({"k": "t", "v": if r.chance(zero, 20) { 0 } else { r.range(1, 30) }}),
    }
}
/// a percentage near the one at which what is staked is just enough
pub fn near(r: &mut kit::Rng, staked: u128, supply: u128) -> Value {
    const ONE: u128 = 1_000_000_000_000_000_000;
    if supply == 0 { return json!({"k": "none", "v": "0"}); }
    let x = kit::cosmwasm_std::Uint128::new(ONE).multiply_ratio(staked.min(supply), supply).u128();
    // off by a fraction of one token, of any size
    let off = 10u128.pow(r.below(19) as u32) / supply.min(ONE) + r.below(2) as u128;
    let x = if r.chance(2, 3) { x + off } else { x.saturating_sub(off) };
    json!({"k": "pct", "v": x.clamp(1, ONE).to_string()})
}
pub fn gthr(r: &mut kit::Rng, supply: u128) -> Value {
    match r.below(10) {
        0 | 1 => json!({"k": "none", "v": "0"}),
        2..=5 => json!({"k": "pct", "v": match r.below(12) {
            0 => "0".into(), 1 => "1000000000000000001".into(), 2 => "1000000000000000000".to_string(), 3 => "1".into(), 4 => "333333333333333333".into(), 5 => "666666666666666667".into(),
            _ => (r.u128() % 1_000_000_000_000_000_000).to_string() }}),
        _ => json!({"k": "cnt", "v": match r.below(8) { 0 => 0, 1 => supply, 2 => supply.saturating_add(1), _ => r.amt(supply) }.to_string()}),
    }
}
/// a field of an answer, or the whole answer when it is an error
pub fn str_or(v: &Value, k: &str) -> Value {
    if v[k].is_null() { v.clone() } else { v[k].clone() }
}

/// who may migrate a contract
pub fn admin_of(app: &App, lab: &Labels, l: &str) -> Value {
    json!(app.contract_data(&Addr::unchecked(lab.addr(l))).ok().and_then(|d| d.admin).map(|a| lab.label(a.as_str())).unwrap_or("".into()))
}
/// administrator, listener and metadata of a denomination
pub fn den(app: &App, d: &str) -> Value {
    let rq: kit::cosmwasm_std::QueryRequest<Empty> = kit::cosmwasm_std::QueryRequest::Stargate { path: "/kit/denom".into(), data: Binary::from(kit::chain::pb(&[(1, d.as_bytes())])) };
    app.wrap().query(&rq).unwrap()
}
/// time passes; now and then a lot of it
pub fn adv(r: &mut kit::Rng, app: &App, seen: &mut Vec<i64>) -> Value {
    let k = match r.below(25) { 0 => r.range(1000, 20_000), 1 if r.chance(1, 2) => r.range(100_000, 5_000_000), _ => r.range(0, 3) };
    let h = (app.block_info().height - H0) as i64 + k as i64;
    seen.push(h);
    json!({"o": "adv", "n": k, "s": k * if k > 100_000 { 5 } else { r.range(3, 7) }})
}
/// a height to ask about
pub fn past(r: &mut kit::Rng, app: &App, seen: &[i64]) -> i64 {
    let h = (app.block_info().height - H0) as i64;
    match r.below(8) { 0 => h + r.range(1, 3) as i64, 1 => r.range(0, h as u64 + 4) as i64 - 2, _ => *r.pick(seen) + r.range(0, 2) as i64 - 1 }
}
