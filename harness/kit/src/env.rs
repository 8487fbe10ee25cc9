//! Chain environment shared by the suites: accounts, clock, bank, cw20.
use crate::{json, Value};
use cosmwasm_std::{coins, Addr, Binary, BlockInfo, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response, Timestamp, Uint128, WasmMsg};
pub use crate::chain::App;
use cw_multi_test::{AppResponse, BankSudo, Contract, ContractWrapper, Executor, SudoMsg};
use serde_json::Map;

pub const T0: u64 = 1_000_000;
pub const H0: u64 = 1_000;
pub const USERS: [&str; 6] = ["alice", "bob", "carol", "dave", "erin", "frank"];

pub fn app() -> App {
    let mut app = crate::chain::new_app();
    app.set_block(BlockInfo {
        height: H0,
        time: Timestamp::from_seconds(T0),
        chain_id: "sim".into(),
    });
    app
}
pub fn advance(app: &mut App, op: &Value) {
    let n = op["n"].as_u64().unwrap_or(0);
    let s = op["s"].as_u64().unwrap_or(0);
    app.update_block(|b| {
        b.height += n;
        b.time = b.time.plus_seconds(s);
    });
    // what the chain does when a block begins: the simulator does it just before the next one
    app.update_block(|_| {});
}
pub fn u(v: &Value) -> Uint128 {
    match v {
        Value::String(s) => Uint128::new(s.parse().expect("amount")),
        Value::Number(n) => Uint128::new(n.as_u64().expect("amount") as u128),
        _ => panic!("amount {v}"),
    }
}
pub fn st(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("string expected: {v}")).to_string()
}
pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(st).collect()).unwrap_or_default()
}
pub fn funds(v: &Value) -> Vec<Coin> {
    // [{"d":"ujuno","a":"5"}]
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|c| Coin { denom: st(&c["d"]), amount: u(&c["a"]) })
                .collect()
        })
        .unwrap_or_default()
}
pub fn mint(app: &mut App, to: &str, denom: &str, amount: u128) {
    if amount == 0 {
        return;
    }
    app.sudo(SudoMsg::Bank(BankSudo::Mint {
        to_address: to.into(),
        amount: coins(amount, denom),
    }))
    .unwrap();
}
pub fn bal(app: &App, who: &Addr, denom: &str) -> String {
    app.wrap()
        .query_balance(who.as_str(), denom)
        .map(|c| c.amount.to_string())
        .unwrap_or_else(|e| format!("err {e}"))
}
pub fn cw20_contract() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(
        cw20_base::contract::execute,
        cw20_base::contract::instantiate,
        cw20_base::contract::query,
    ))
}
pub fn new_cw20(app: &mut App, code: u64, balances: &[(&str, u128)]) -> Addr {
    app.instantiate_contract(
        code,
        Addr::unchecked("cwminter"),
        &cw20_base::msg::InstantiateMsg {
            name: "token".into(),
            symbol: "TOK".into(),
            decimals: 6,
            initial_balances: balances
                .iter()
                .map(|(a, n)| cw20::Cw20Coin { address: a.to_string(), amount: Uint128::new(*n) })
                .collect(),
            mint: Some(cw20::MinterResponse { minter: "cwminter".into(), cap: None }),
            marketing: None,
        },
        &[],
        "cw20",
        None,
    )
    .unwrap()
}
pub fn cw20_bal(app: &App, token: &Addr, who: &str) -> String {
    app.wrap()
        .query_wasm_smart::<cw20::BalanceResponse>(
            token,
            &cw20::Cw20QueryMsg::Balance { address: who.into() },
        )
        .map(|b| b.balance.to_string())
        .unwrap_or_else(|e| format!("err {e}"))
}
pub fn res(r: anyhow::Result<AppResponse>) -> (bool, Value) {
    match r {
        Ok(_) => (true, json!({})),
        Err(e) => (false, json!({ "err": e.root_cause().to_string() })),
    }
}
pub fn run(app: &mut App, sender: &str, msg: CosmosMsg) -> anyhow::Result<AppResponse> {
    app.execute(Addr::unchecked(sender), msg)
}
pub fn exec<T: serde::Serialize + std::fmt::Debug>(
    app: &mut App,
    sender: &str,
    contract: &Addr,
    msg: &T,
    funds: &[Coin],
) -> (bool, Value) {
    res(app.execute_contract(Addr::unchecked(sender), contract.clone(), msg, funds))
}
pub fn map<I: IntoIterator<Item = (String, Value)>>(it: I) -> Value {
    let mut m = Map::new();
    for (k, v) in it {
        m.insert(k, v);
    }
    Value::Object(m)
}
/// smart query as plain JSON, or {"err":1}
pub fn q<T: serde::Serialize>(app: &App, c: &Addr, msg: &T) -> Value {
    let req: cosmwasm_std::QueryRequest<Empty> = cosmwasm_std::WasmQuery::Smart {
        contract_addr: c.to_string(),
        msg: cosmwasm_std::to_json_binary(msg).unwrap(),
    }
    .into();
    let raw = cosmwasm_std::to_json_vec(&req).unwrap();
    match cosmwasm_std::Querier::raw_query(app, &raw) {
        cosmwasm_std::SystemResult::Ok(cosmwasm_std::ContractResult::Ok(b)) => {
            serde_json::from_slice(b.as_slice()).unwrap_or(json!({"err": 2}))
        }
        _ => json!({"err": 1}),
    }
}
pub fn clock(app: &App) -> Value {
    let b = app.block_info();
    json!({"h": b.height - H0, "t": b.time.seconds() - T0})
}
/// [labels] stable map from contract addresses to readable names
#[derive(Default, Clone)]
pub struct Labels(pub Vec<(String, String)>);
impl Labels {
    pub fn add(&mut self, addr: &Addr, label: &str) {
        self.0.push((addr.to_string(), label.to_string()));
    }
    pub fn label(&self, addr: &str) -> String {
        self.0
            .iter()
            .find(|(a, _)| a == addr)
            .map(|(_, l)| l.clone())
            .unwrap_or_else(|| addr.to_string())
    }
    pub fn addr(&self, label: &str) -> String {
        self.0
            .iter()
            .find(|(_, l)| l == label)
            .map(|(a, _)| a.clone())
            .unwrap_or_else(|| label.to_string())
    }
}
/// expirations as [k, v], times relative to the start of the run
pub fn expiry(v: &Value) -> Value {
    match v["k"].as_str().unwrap() {
        "h" => json!({"at_height": (v["v"].as_i64().unwrap() + H0 as i64)}),
        "t" => json!({"at_time": ((v["v"].as_i64().unwrap() + T0 as i64) as u128 * 1_000_000_000).to_string()}),
        _ => Value::Null,
    }
}
pub fn jexpiry(v: &Value) -> Value {
    if let Some(h) = v["at_height"].as_u64() { json!({"k": "h", "v": h as i64 - H0 as i64}) }
    else if let Some(t) = v["at_time"].as_str() { json!({"k": "t", "v": (t.parse::<u64>().unwrap() / 1_000_000_000) as i64 - T0 as i64}) }
    else { json!({"k": "never", "v": 0}) }
}
/// two-step ownership (cw-ownable): the answer to the ownership query, the messages, and random ones
pub fn own(app: &App, lab: &Labels, c: &Addr) -> Value {
    let o = q(app, c, &json!({"ownership": {}}));
    if o.get("err").is_some() { return o; }
    let l = |k: &str| o[k].as_str().map(|x| lab.label(x)).unwrap_or_default();
    json!({"owner": l("owner"), "pend": l("pending_owner"), "exp": jexpiry(&o["pending_expiry"])})
}
pub fn own_msg(lab: &Labels, op: &Value) -> Value {
    match op["o"].as_str().unwrap() {
        "offer" => json!({"transfer_ownership": {"new_owner": lab.addr(op["to"].as_str().unwrap()), "expiry": expiry(&op["exp"])}}),
        "accept" => json!("accept_ownership"),
        _ => json!("renounce_ownership"),
    }
}
pub fn gown(r: &mut crate::Rng, k: &str, o: &Value, who: &str, to: &[&str], now: &Value) -> Value {
    let (h, t) = (now["h"].as_u64().unwrap(), now["t"].as_u64().unwrap());
    let pick = |r: &mut crate::Rng, x: &Value| { let x = x.as_str().unwrap_or(""); if x.is_empty() || r.chance(1, 8) { who.to_string() } else { x.to_string() } };
    match k {
        "offer" => {
            let by = pick(r, &o["owner"]);
            let exp = match r.below(6) { 0 | 1 => json!({"k": "h", "v": h + r.below(4)}), 2 => json!({"k": "t", "v": t + r.below(15)}), _ => json!({"k": "never", "v": 0}) };
            json!({"o": k, "by": by, "to": r.s(to), "exp": exp})
        }
        "accept" => json!({"o": k, "by": pick(r, &o["pend"])}),
        _ => json!({"o": k, "by": pick(r, &o["owner"])}),
    }
}

/// a contract as its older release was: the same but for the version it says it is
struct Aged(Box<dyn Contract<Empty>>);
impl Contract<Empty> for Aged {
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> { self.0.instantiate(d, e, i, m) }
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> { self.0.execute(d, e, i, m) }
    fn query(&self, d: Deps, e: Env, m: Vec<u8>) -> anyhow::Result<Binary> { self.0.query(d, e, m) }
    fn sudo(&self, d: DepsMut, e: Env, m: Vec<u8>) -> anyhow::Result<Response> { self.0.sudo(d, e, m) }
    fn reply(&self, d: DepsMut, e: Env, m: Reply) -> anyhow::Result<Response> { self.0.reply(d, e, m) }
    fn migrate(&self, d: DepsMut, _: Env, m: Vec<u8>) -> anyhow::Result<Response> {
        let mut i: Value = serde_json::from_slice(&d.storage.get(b"contract_info").unwrap_or_default())?;
        i["version"] = serde_json::from_slice(&m)?;
        d.storage.set(b"contract_info", i.to_string().as_bytes());
        Ok(Response::new())
    }
}
/// the code of a contract, and of its older release
pub fn renewable(app: &mut App, c: impl Fn() -> Box<dyn Contract<Empty>>) -> [u64; 2] {
    [app.store_code(c()), app.store_code(Box::new(Aged(c())))]
}
/// the contract turns out to be of an older release, and `by` brings it up to date
pub fn renew(app: &mut App, codes: [u64; 2], c: &Addr, admin: &str, by: &str, from: &str) -> (bool, Value) {
    let version = |app: &App| serde_json::from_slice::<Value>(&app.wrap().query_wasm_raw(c.as_str(), b"contract_info".to_vec()).ok().flatten().unwrap_or_default()).map(|v| v["version"].clone()).unwrap_or(Value::Null);
    let now = version(app);
    let to = |app: &mut App, by: &str, code: u64, m: &Value| run(app, by, WasmMsg::Migrate { contract_addr: c.to_string(), new_code_id: code, msg: Binary::from(m.to_string().into_bytes()) }.into());
    to(app, admin, codes[1], &if from == "same" { now.clone() } else { json!(from) }).expect("the older release");
    let r = to(app, by, codes[0], &json!({}));
    let ok = r.is_ok();
    if !ok { to(app, admin, codes[1], &now).expect("as it was"); }
    if version(app) != now { return (false, json!({"err": "version"})); }
    res(r)
}
