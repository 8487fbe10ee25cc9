//! Stand-in contracts controlled by the driver.
//!  * `Mock`: records every call it receives (a hook listener, a pre-propose
//!    module, a message target); can be told to fail; can forward calls.
//!  * `MockVote`: a voting module whose powers the driver sets; power at a
//!    height is the power at the start of that block.
use crate::{json, Value};
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply,
    Response, Uint128,
};
use cw_multi_test::Contract;

pub struct Mock;
const LOG: &[u8] = b"log";
const FAIL: &[u8] = b"fail";
thread_local! {
    /// orders the calls all mocks of a run receive
    static SEQ: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn get(s: &dyn cosmwasm_std::Storage, k: &[u8]) -> Value {
    s.get(k)
        .map(|b| serde_json::from_slice(&b).unwrap())
        .unwrap_or(Value::Null)
}
fn set(s: &mut dyn cosmwasm_std::Storage, k: &[u8], v: &Value) {
    s.set(k, v.to_string().as_bytes());
}
fn bin(v: &Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}

impl Contract<Empty> for Mock {
    fn instantiate(&self, deps: DepsMut, _e: Env, _i: MessageInfo, _m: Vec<u8>) -> anyhow::Result<Response> {
        set(deps.storage, LOG, &json!([]));
        Ok(Response::new())
    }
    fn execute(&self, deps: DepsMut, _e: Env, info: MessageInfo, msg: Vec<u8>) -> anyhow::Result<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(on) = v.get("set_fail") {
            set(deps.storage, FAIL, on);
            return Ok(Response::new());
        }
        if let Some(f) = v.get("forward") {
            // {"forward": <cosmos msg json>}
            let m: CosmosMsg<Empty> = from_json(bin(f))?;
            return Ok(Response::new().add_message(m));
        }
        if get(deps.storage, FAIL) == json!(true) {
            anyhow::bail!("mock told to fail");
        }
        let mut log = get(deps.storage, LOG);
        let seq = SEQ.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        log.as_array_mut()
            .unwrap()
            .push(json!({"seq": seq, "from": info.sender.as_str(), "msg": v,
                "funds": info.funds.iter().map(|c| format!("{}{}", c.amount, c.denom)).collect::<Vec<_>>()}));
        set(deps.storage, LOG, &log);
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, _e: Env, _m: Vec<u8>) -> anyhow::Result<Binary> {
        if _m == b"\"fail\"" {
            return Ok(bin(&json!(get(deps.storage, FAIL) == json!(true))));
        }
        Ok(bin(&get(deps.storage, LOG)))
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        anyhow::bail!("no sudo")
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> anyhow::Result<Response> {
        anyhow::bail!("no reply")
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        Ok(Response::new())
    }
}

pub struct MockVote;
const CUR: &[u8] = b"cur";
const HIST: &[u8] = b"hist";
const DAO: &[u8] = b"dao";
const ACTIVE: &[u8] = b"active";
const TOK: &[u8] = b"tok";

fn at(s: &dyn cosmwasm_std::Storage, h: Option<u64>) -> Value {
    if let Some(h) = h {
        for e in get(s, HIST).as_array().unwrap() {
            if e["h"].as_u64().unwrap() >= h {
                return e["p"].clone();
            }
        }
    }
    get(s, CUR)
}
impl Contract<Empty> for MockVote {
    fn instantiate(&self, deps: DepsMut, _e: Env, info: MessageInfo, msg: Vec<u8>) -> anyhow::Result<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        set(deps.storage, CUR, &v["powers"]);
        set(deps.storage, TOK, &json!({"denom": v["denom"], "token": v["token"]}));
        set(deps.storage, HIST, &json!([]));
        set(deps.storage, ACTIVE, &json!(true));
        set(deps.storage, DAO, &json!(info.sender.as_str()));
        Ok(Response::new())
    }
    fn execute(&self, deps: DepsMut, env: Env, _i: MessageInfo, msg: Vec<u8>) -> anyhow::Result<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(a) = v.get("set_active") {
            set(deps.storage, ACTIVE, a);
        } else {
            let mut hist = get(deps.storage, HIST);
            let hs = hist.as_array_mut().unwrap();
            let mut cur = get(deps.storage, CUR);
            if hs.last().map(|e| e["h"].as_u64().unwrap()) != Some(env.block.height) {
                hs.push(json!({"h": env.block.height, "p": cur}));
                set(deps.storage, HIST, &hist);
            }
            cur[v["set"]["who"].as_str().unwrap()] = v["set"]["p"].clone();
            set(deps.storage, CUR, &cur);
        }
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> anyhow::Result<Binary> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(q) = v.get("voting_power_at_height") {
            let h = q["height"].as_u64();
            let p = at(deps.storage, h);
            let power = p[q["address"].as_str().unwrap()].as_str().unwrap_or("0").to_string();
            return Ok(bin(&json!({"power": power, "height": h.unwrap_or(env.block.height)})));
        }
        if let Some(q) = v.get("total_power_at_height") {
            let h = q["height"].as_u64();
            let t = at(deps.storage, h)
                .as_object()
                .unwrap()
                .values()
                .fold(Uint128::zero(), |a, x| a + Uint128::new(x.as_str().unwrap().parse().unwrap()));
            return Ok(bin(&json!({"power": t.to_string(), "height": h.unwrap_or(env.block.height)})));
        }
        if v.get("dao").is_some() {
            return Ok(bin(&get(deps.storage, DAO)));
        }
        if v == json!("powers") {
            return Ok(bin(&get(deps.storage, CUR)));
        }
        if v.get("is_active").is_some() {
            return Ok(bin(&json!({"active": get(deps.storage, ACTIVE)})));
        }
        let tok = get(deps.storage, TOK);
        if v.get("denom").is_some() && tok["denom"].is_string() {
            return Ok(bin(&json!({"denom": tok["denom"]})));
        }
        if v.get("token_contract").is_some() && tok["token"].is_string() {
            return Ok(bin(&tok["token"]));
        }
        if v.get("info").is_some() {
            return Ok(bin(&json!({"info": {"contract": "crates.io:mock-vote", "version": "1.0.0"}})));
        }
        anyhow::bail!("unknown query")
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        anyhow::bail!("no sudo")
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> anyhow::Result<Response> {
        anyhow::bail!("no reply")
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        Ok(Response::new())
    }
}

pub fn mock_log(app: &crate::chain::App, c: &Addr) -> Vec<Value> {
    crate::env::q(app, c, &json!({})).as_array().cloned().expect("mock log")
}
/// the mocks that were ever called, by their latest call
pub fn order<'a>(app: &crate::chain::App, ms: impl Iterator<Item = (&'a str, String)>) -> Value {
    let mut v: Vec<(u64, String)> = ms
        .filter_map(|(l, a)| mock_log(app, &Addr::unchecked(a)).last().map(|e| (e["seq"].as_u64().unwrap(), l.to_string())))
        .collect();
    v.sort();
    json!(v.into_iter().map(|x| x.1).collect::<Vec<_>>())
}
pub fn is_failing(app: &crate::chain::App, c: &Addr) -> bool {
    crate::env::q(app, c, &json!("fail")) == json!(true)
}
pub fn msg_json<T: serde::Serialize>(m: &T) -> Value {
    serde_json::from_slice(&to_json_binary(m).unwrap()).unwrap()
}
