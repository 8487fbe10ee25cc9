//! Chain modules beyond what the simulator offers: NFTs kept by the chain (OmniFlix ONFT),
//! denominations made by accounts (token factory), and a bank that asks a denomination's
//! before-send listener; staking with validators "v1", "v2", "v3" (unbonding takes chain_ubs
//! seconds, rewards go to withdraw addresses, coins can be slashed). Users reach them with the same messages contracts do.
use cosmwasm_std::{Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, Coin, CustomQuery, DistributionMsg, Empty, MemoryStorage, Querier, StakingMsg, StakingQuery, Storage, Uint128};
use cosmwasm_std::testing::MockApi;
use cw_multi_test::{AppBuilder, AppResponse, Bank, BankKeeper, BankSudo, CosmosRouter, Distribution, FailingModule, GovFailingModule, IbcFailingModule, Module, Staking, StakingSudo, Stargate, SudoMsg, WasmKeeper, WasmSudo};
use serde_json::{json, Value};

pub type App = cw_multi_test::App<HookBank, MockApi, MemoryStorage, FailingModule<Empty, Empty, Empty>, WasmKeeper<Empty, Empty>, Stk, Dis, IbcFailingModule, GovFailingModule, Chain>;
pub fn new_app() -> App {
    AppBuilder::new().with_bank(HookBank(BankKeeper::new())).with_staking(Stk).with_distribution(Dis).with_stargate(Chain).build(|_, _, _| {})
}
// ---- protobuf, just enough: length-delimited and varint fields
fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 128 { out.push((n as u8) | 128); n >>= 7; }
    out.push(n as u8);
}
pub fn pb(fields: &[(u32, &[u8])]) -> Vec<u8> {
    let mut out = vec![];
    for (t, v) in fields {
        if v.is_empty() { continue; }
        varint((*t as u64) << 3 | 2, &mut out);
        varint(v.len() as u64, &mut out);
        out.extend_from_slice(v);
    }
    out
}
fn read(b: &[u8], i: &mut usize) -> anyhow::Result<u64> {
    let (mut n, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*i).ok_or(anyhow::anyhow!("short"))?;
        *i += 1;
        n |= ((x & 127) as u64) << s;
        if x < 128 { return Ok(n); }
        s += 7;
    }
}
/// the last length-delimited field with this tag
pub fn field(b: &[u8], tag: u64) -> anyhow::Result<Vec<u8>> {
    Ok(fields(b, tag)?.pop().unwrap_or_default())
}
pub fn fields(b: &[u8], tag: u64) -> anyhow::Result<Vec<Vec<u8>>> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let k = read(b, &mut i)?;
        match k & 7 {
            0 => { read(b, &mut i)?; }
            2 => {
                let n = read(b, &mut i)? as usize;
                let v = b.get(i..i + n).ok_or(anyhow::anyhow!("short"))?;
                i += n;
                if k >> 3 == tag { out.push(v.to_vec()); }
            }
            _ => anyhow::bail!("wire type"),
        }
    }
    Ok(out)
}
pub fn text(b: &[u8], tag: u64) -> anyhow::Result<String> {
    Ok(String::from_utf8(field(b, tag)?)?)
}
fn coin(b: &[u8], tag: u64) -> anyhow::Result<Coin> {
    let c = field(b, tag)?;
    Ok(Coin { denom: text(&c, 1)?, amount: Uint128::new(text(&c, 2)?.parse()?) })
}
// ---- state
fn onft(denom: &str, id: &str) -> Vec<u8> { format!("\0chain/onft/{denom}/{id}").into_bytes() }
fn count(denom: &str) -> Vec<u8> { format!("\0chain/onfts/{denom}").into_bytes() }
fn admin(denom: &str) -> Vec<u8> { format!("\0chain/admin/{denom}").into_bytes() }
fn hook(denom: &str) -> Vec<u8> { format!("\0chain/hook/{denom}").into_bytes() }
fn minter(denom: &str) -> Vec<u8> { format!("\0chain/minter/{denom}").into_bytes() }
fn cap(denom: &str) -> Vec<u8> { format!("\0chain/cap/{denom}").into_bytes() }
fn meta(denom: &str) -> Vec<u8> { format!("\0chain/meta/{denom}").into_bytes() }
fn get(s: &dyn Storage, k: &[u8]) -> String { s.get(k).map(|v| String::from_utf8(v).unwrap()).unwrap_or_default() }
fn num(s: &dyn Storage, k: &[u8]) -> u64 { get(s, k).parse().unwrap_or(0) }

pub struct Chain;
impl Stargate for Chain {
    fn execute<ExecC, QueryC>(&self, api: &dyn Api, storage: &mut dyn Storage, router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, block: &BlockInfo, sender: Addr, type_url: String, value: Binary) -> anyhow::Result<AppResponse>
    where QueryC: CustomQuery {
        let b = value.as_slice();
        let mut out = AppResponse::default();
        let sudo = |s: &mut dyn Storage, m: BankSudo| router.sudo(api, s, block, SudoMsg::Bank(m));
        let need = |ok: bool, why: &str| if ok { Ok(()) } else { Err(anyhow::anyhow!(why.to_string())) };
        match type_url.as_str() {
            "/OmniFlix.onft.v1beta1.MsgMintONFT" => {
                // id, denom, (the rest unused), recipient
                let (id, d, to) = (text(b, 1)?, text(b, 2)?, text(b, 10)?);
                need(storage.get(&onft(&d, &id)).is_none(), "onft exists")?;
                storage.set(&onft(&d, &id), to.as_bytes());
                let n = num(storage, &count(&d)) + 1;
                storage.set(&count(&d), n.to_string().as_bytes());
            }
            "/OmniFlix.onft.v1beta1.MsgTransferONFT" => {
                let (id, d, from, to) = (text(b, 1)?, text(b, 2)?, text(b, 3)?, text(b, 4)?);
                need(from == sender.as_str(), "onft: wrong signer")?;
                need(get(storage, &onft(&d, &id)) == from, "onft: not the owner")?;
                storage.set(&onft(&d, &id), to.as_bytes());
            }
            "/OmniFlix.onft.v1beta1.MsgBurnONFT" => {
                let (id, d, from) = (text(b, 1)?, text(b, 2)?, text(b, 3)?);
                need(from == sender.as_str() && get(storage, &onft(&d, &id)) == from, "onft: not the owner")?;
                storage.remove(&onft(&d, &id));
                let n = num(storage, &count(&d)) - 1;
                storage.set(&count(&d), n.to_string().as_bytes());
            }
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                need(text(b, 1)? == sender.as_str(), "tokenfactory: wrong signer")?;
                let d = format!("factory/{}/{}", sender, text(b, 2)?);
                need(storage.get(&admin(&d)).is_none(), "tokenfactory: denom exists")?;
                storage.set(&admin(&d), sender.as_bytes());
                out.data = Some(Binary::from(pb(&[(1, d.as_bytes())])));
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let (c, to) = (coin(b, 2)?, text(b, 3)?);
                need(text(b, 1)? == sender.as_str() && get(storage, &admin(&c.denom)) == sender.as_str(), "tokenfactory: unauthorized")?;
                need(!c.amount.is_zero(), "tokenfactory: zero")?;
                let to = if to.is_empty() { sender.to_string() } else { to };
                sudo(storage, BankSudo::Mint { to_address: to, amount: vec![c] })?;
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let (c, from) = (coin(b, 2)?, text(b, 3)?);
                need(text(b, 1)? == sender.as_str() && get(storage, &admin(&c.denom)) == sender.as_str(), "tokenfactory: unauthorized")?;
                need(!c.amount.is_zero(), "tokenfactory: zero")?;
                let from = if from.is_empty() { sender.to_string() } else { from };
                router.execute(api, storage, block, Addr::unchecked(from), BankMsg::Burn { amount: vec![c] }.into())?;
            }
            "/osmosis.tokenfactory.v1beta1.MsgForceTransfer" => {
                let (c, from, to) = (coin(b, 2)?, text(b, 3)?, text(b, 4)?);
                need(text(b, 1)? == sender.as_str() && get(storage, &admin(&c.denom)) == sender.as_str(), "tokenfactory: unauthorized")?;
                need(!c.amount.is_zero(), "tokenfactory: zero")?;
                router.execute(api, storage, block, Addr::unchecked(from), BankMsg::Send { to_address: to, amount: vec![c] }.into())?;
            }
            "/osmosis.tokenfactory.v1beta1.MsgChangeAdmin" => {
                let (d, to) = (text(b, 2)?, text(b, 3)?);
                need(text(b, 1)? == sender.as_str() && get(storage, &admin(&d)) == sender.as_str(), "tokenfactory: unauthorized")?;
                storage.set(&admin(&d), to.as_bytes());
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook" => {
                let (d, to) = (text(b, 2)?, text(b, 3)?);
                need(text(b, 1)? == sender.as_str() && get(storage, &admin(&d)) == sender.as_str(), "tokenfactory: unauthorized")?;
                if to.is_empty() { storage.remove(&hook(&d)) } else { storage.set(&hook(&d), to.as_bytes()) }
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => {
                let m = field(b, 2)?;
                let d = text(&m, 3)?;
                need(text(b, 1)? == sender.as_str() && get(storage, &admin(&d)) == sender.as_str(), "tokenfactory: unauthorized")?;
                let m = format!("{}|{}|{}|{}|{}", text(&m, 1)?, fields(&m, 2)?.iter().map(|x| text(x, 1)).collect::<anyhow::Result<Vec<_>>>()?.join(","), text(&m, 4)?, text(&m, 5)?, text(&m, 6)?);
                storage.set(&meta(&d), m.as_bytes());
            }
            // fan tokens: an authority, a minter and a maximal supply
            "/bitsong.fantoken.MsgIssue" => {
                let (sym, name, max, by, m, uri) = (text(b, 1)?, text(b, 2)?, text(b, 3)?, text(b, 4)?, text(b, 5)?, text(b, 6)?);
                need(by == sender.as_str(), "fantoken: wrong signer")?;
                need(!sym.is_empty() && max.parse::<u128>().map_or(false, |x| x > 0), "fantoken: invalid")?;
                let d = format!("ft{sym}");
                need(storage.get(&admin(&d)).is_none(), "fantoken: denom exists")?;
                storage.set(&admin(&d), by.as_bytes());
                storage.set(&minter(&d), m.as_bytes());
                storage.set(&cap(&d), max.as_bytes());
                storage.set(&meta(&d), format!("{sym}|{name}|{uri}").as_bytes());
                out.data = Some(Binary::from(pb(&[(1, d.as_bytes())])));
            }
            "/bitsong.fantoken.MsgMint" => {
                let (to, c, by) = (text(b, 1)?, coin(b, 2)?, text(b, 3)?);
                need(by == sender.as_str() && get(storage, &minter(&c.denom)) == by, "fantoken: unauthorized")?;
                need(!c.amount.is_zero(), "fantoken: zero")?;
                let made: u128 = get(storage, &count(&c.denom)).parse().unwrap_or(0);
                let made = made.checked_add(c.amount.u128()).filter(|x| *x <= get(storage, &cap(&c.denom)).parse().unwrap());
                need(made.is_some(), "fantoken: more than the maximal supply")?;
                storage.set(&count(&c.denom), made.unwrap().to_string().as_bytes());
                let to = if to.is_empty() { sender.to_string() } else { to };
                sudo(storage, BankSudo::Mint { to_address: to, amount: vec![c] })?;
            }
            u @ ("/bitsong.fantoken.MsgSetAuthority" | "/bitsong.fantoken.MsgSetMinter") => {
                let (d, old, new) = (text(b, 1)?, text(b, 2)?, text(b, 3)?);
                let k = if u.ends_with("Minter") { minter(&d) } else { admin(&d) };
                need(old == sender.as_str() && get(storage, &k) == old, "fantoken: unauthorized")?;
                storage.set(&k, new.as_bytes());
            }
            x => anyhow::bail!("chain: no message {x}"),
        }
        Ok(out)
    }
    fn query(&self, _: &dyn Api, storage: &dyn Storage, _: &dyn Querier, _: &BlockInfo, path: String, data: Binary) -> anyhow::Result<Binary> {
        let b = data.as_slice();
        Ok(Binary::from(match path.as_str() {
            "/OmniFlix.onft.v1beta1.Query/ONFT" => {
                let (d, id) = (text(b, 1)?, text(b, 2)?);
                let o = get(storage, &onft(&d, &id));
                if o.is_empty() { anyhow::bail!("onft: none"); }
                json!({"onft": {"id": id, "metadata": null, "data": "", "owner": o, "transferable": true, "extensible": true, "created_at": null, "nsfw": false, "royalty_share": "0"}}).to_string().into_bytes()
            }
            "/OmniFlix.onft.v1beta1.Query/Supply" => json!({"amount": num(storage, &count(&text(b, 1)?)).to_string()}).to_string().into_bytes(),
            // the state of a denomination: admin, listener, metadata name
            "/kit/denom" => {
                let d = text(b, 1)?;
                json!([get(storage, &admin(&d)), get(storage, &hook(&d)), get(storage, &meta(&d)), get(storage, &minter(&d)), get(storage, &cap(&d))]).to_string().into_bytes()
            }
            x => anyhow::bail!("chain: no query {x}"),
        }))
    }
}
pub struct HookBank(BankKeeper);
impl Bank for HookBank {}
impl Module for HookBank {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;
    fn execute<ExecC, QueryC>(&self, api: &dyn Api, storage: &mut dyn Storage, router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, block: &BlockInfo, sender: Addr, msg: BankMsg) -> anyhow::Result<AppResponse>
    where ExecC: std::fmt::Debug + Clone + PartialEq + schemars::JsonSchema + serde::de::DeserializeOwned + 'static, QueryC: CustomQuery + serde::de::DeserializeOwned + 'static {
        if let BankMsg::Send { to_address, amount } = &msg {
            for c in amount {
                let h = get(storage, &hook(&c.denom));
                if !h.is_empty() {
                    let m = WasmSudo::new(&Addr::unchecked(h), &json!({"block_before_send": {"from": sender.as_str(), "to": to_address, "amount": c}}))?;
                    router.sudo(api, storage, block, m.into())?;
                }
            }
        }
        self.0.execute(api, storage, router, block, sender, msg)
    }
    fn query(&self, api: &dyn Api, storage: &dyn Storage, querier: &dyn Querier, block: &BlockInfo, request: BankQuery) -> anyhow::Result<Binary> {
        self.0.query(api, storage, querier, block, request)
    }
    fn sudo<ExecC, QueryC>(&self, api: &dyn Api, storage: &mut dyn Storage, router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, block: &BlockInfo, msg: BankSudo) -> anyhow::Result<AppResponse>
    where ExecC: std::fmt::Debug + Clone + PartialEq + schemars::JsonSchema + serde::de::DeserializeOwned + 'static, QueryC: CustomQuery + serde::de::DeserializeOwned + 'static {
        self.0.sudo(api, storage, router, block, msg)
    }
}

// ---- staking
pub const BONDED: &str = "ustake";
const STAKE: &[u8] = b"\0chain/stake";
const POOL: &str = "staking-module";
fn load(s: &dyn Storage) -> Value {
    s.get(STAKE).map(|v| serde_json::from_slice(&v).unwrap()).unwrap_or(json!({"del": {}, "unb": [], "to": {}, "rew": {}, "hop": {}, "ubs": 100}))
}
fn save(s: &mut dyn Storage, v: &Value) {
    s.set(STAKE, v.to_string().as_bytes())
}
fn amt(v: &Value) -> u128 {
    v.as_str().and_then(|x| x.parse().ok()).unwrap_or(0)
}
fn add(v: &mut Value, n: u128) {
    *v = json!((amt(v) + n).to_string())
}
fn sub(v: &mut Value, n: u128) -> anyhow::Result<()> {
    *v = json!(amt(v).checked_sub(n).ok_or(anyhow::anyhow!("staking: not that much"))?.to_string());
    Ok(())
}
fn val(v: &str) -> anyhow::Result<()> {
    if ["v1", "v2", "v3"].contains(&v) { Ok(()) } else { anyhow::bail!("staking: no validator {v}") }
}
fn coins(n: u128) -> Vec<Coin> {
    vec![Coin { denom: BONDED.into(), amount: Uint128::new(n) }]
}
/// what a delegator has with a validator: delegated, unbonding, rewards
pub fn staked(app: &App, who: &str, v: &str) -> (u128, u128, u128) {
    app.read_module(|_, _, s| {
        let x = load(s);
        let u = x["unb"].as_array().unwrap().iter().filter(|e| e["who"] == who && e["v"] == v).map(|e| amt(&e["n"])).sum();
        (amt(&x["del"][who][v]), u, amt(&x["rew"][who][v]))
    })
}
/// the end of the first unbonding of a delegator from a validator, and how much it is
pub fn first_end(app: &App, who: &str, v: &str) -> Option<(u64, u128)> {
    app.read_module(|_, _, s| {
        let x = load(s);
        let q: Vec<&Value> = x["unb"].as_array().unwrap().iter().filter(|e| e["who"] == who && e["v"] == v && amt(&e["n"]) > 0).collect();
        let end = q.iter().map(|e| e["end"].as_u64().unwrap()).min()?;
        Some((end, q.iter().filter(|e| e["end"] == end).map(|e| amt(&e["n"])).sum()))
    })
}
pub fn withdraw_address(app: &App, who: &str) -> String {
    app.read_module(|_, _, s| load(s)["to"][who].as_str().unwrap_or(who).to_string())
}
/// what the chain itself does: ["ubs", n], ["reward", who, v, n], ["slash", who, v, n, unbonding]
pub fn chain_act(app: &mut App, m: &Value) -> anyhow::Result<()> {
    let block = app.block_info();
    app.init_modules(|router, api, s| {
        let mut x = load(s);
        let (who, v) = (m[1].as_str().unwrap_or(""), m[2].as_str().unwrap_or(""));
        match m[0].as_str().unwrap() {
            "ubs" => x["ubs"] = m[1].clone(),
            "reward" => {
                anyhow::ensure!(amt(&x["del"][who][v]) > 0, "nothing delegated");
                router.bank.sudo(api, s, router, &block, BankSudo::Mint { to_address: POOL.into(), amount: coins(amt(&m[3])) })?;
                add(&mut x["rew"][who][v], amt(&m[3]));
            }
            "slash" => {
                let n = amt(&m[3]);
                anyhow::ensure!(n > 0, "nothing");
                if m[4] == true {
                    // the part that unbonds first
                    let q = x["unb"].as_array_mut().unwrap();
                    let end = q.iter().filter(|e| e["who"] == who && e["v"] == v && amt(&e["n"]) > 0).map(|e| e["end"].as_u64().unwrap()).min();
                    let mut left = n;
                    for e in q.iter_mut().filter(|e| e["who"] == who && e["v"] == v && e["end"].as_u64() == end) {
                        let k = left.min(amt(&e["n"]));
                        sub(&mut e["n"], k)?;
                        left -= k;
                    }
                    anyhow::ensure!(left == 0, "not that much unbonding");
                } else {
                    sub(&mut x["del"][who][v], n)?;
                }
                router.bank.execute(api, s, router, &block, Addr::unchecked(POOL), BankMsg::Burn { amount: coins(n) })?;
            }
            k => panic!("chain {k}"),
        }
        save(s, &x);
        Ok(())
    })
}
/// pays out the rewards of a delegation
fn pay<E, Q>(x: &mut Value, api: &dyn Api, s: &mut dyn Storage, r: &dyn CosmosRouter<ExecC = E, QueryC = Q>, block: &BlockInfo, who: &str, v: &str) -> anyhow::Result<()>
where Q: CustomQuery {
    let n = amt(&x["rew"][who][v]);
    if n == 0 { return Ok(()); }
    x["rew"][who][v] = json!("0");
    let to = x["to"][who].as_str().unwrap_or(who).to_string();
    r.execute(api, s, block, Addr::unchecked(POOL), BankMsg::Send { to_address: to, amount: coins(n) }.into())?;
    Ok(())
}
pub struct Stk;
impl Module for Stk {
    type ExecT = StakingMsg;
    type QueryT = StakingQuery;
    type SudoT = StakingSudo;
    fn execute<ExecC, QueryC>(&self, api: &dyn Api, s: &mut dyn Storage, r: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, block: &BlockInfo, sender: Addr, msg: StakingMsg) -> anyhow::Result<AppResponse>
    where ExecC: std::fmt::Debug + Clone + PartialEq + schemars::JsonSchema + serde::de::DeserializeOwned + 'static, QueryC: CustomQuery + serde::de::DeserializeOwned + 'static {
        let mut x = load(s);
        let (w, now) = (sender.to_string(), block.time.seconds());
        let end = now + x["ubs"].as_u64().unwrap();
        let good = |c: &Coin| { if c.denom != BONDED || c.amount.is_zero() { anyhow::bail!("staking: bad coin {c}") } Ok(c.amount.u128()) };
        match &msg {
            StakingMsg::Delegate { validator: v, amount } => {
                let n = good(amount)?;
                val(v)?;
                pay(&mut x, api, s, r, block, &w, v)?;
                add(&mut x["del"][&w][v], n);
                r.execute(api, s, block, sender, BankMsg::Send { to_address: POOL.into(), amount: coins(n) }.into())?;
            }
            StakingMsg::Undelegate { validator: v, amount } => {
                let n = good(amount)?;
                val(v)?;
                pay(&mut x, api, s, r, block, &w, v)?;
                sub(&mut x["del"][&w][v], n)?;
                x["unb"].as_array_mut().unwrap().push(json!({"who": w, "v": v, "n": n.to_string(), "end": end}));
            }
            StakingMsg::Redelegate { src_validator: a, dst_validator: b, amount } => {
                let n = good(amount)?;
                val(a)?;
                val(b)?;
                anyhow::ensure!(a != b, "staking: same validator");
                anyhow::ensure!(x["hop"][&w][a].as_u64().unwrap_or(0) <= now, "staking: still moving");
                pay(&mut x, api, s, r, block, &w, a)?;
                pay(&mut x, api, s, r, block, &w, b)?;
                sub(&mut x["del"][&w][a], n)?;
                add(&mut x["del"][&w][b], n);
                x["hop"][&w][b] = json!(end);
            }
            m => anyhow::bail!("staking: {m:?}"),
        }
        save(s, &x);
        Ok(AppResponse::default())
    }
    fn query(&self, _: &dyn Api, s: &dyn Storage, _: &dyn Querier, block: &BlockInfo, q: StakingQuery) -> anyhow::Result<Binary> {
        let x = load(s);
        let c = |n: u128| json!({"denom": BONDED, "amount": n.to_string()});
        let out = match q {
            StakingQuery::BondedDenom {} => json!({"denom": BONDED}),
            StakingQuery::Delegation { delegator: w, validator: v } => {
                let n = amt(&x["del"][&w][&v]);
                let hop = x["hop"][&w][&v].as_u64().unwrap_or(0) > block.time.seconds();
                if n == 0 { json!({"delegation": null}) }
                else { json!({"delegation": {"delegator": w, "validator": v, "amount": c(n), "can_redelegate": c(if hop { 0 } else { n }), "accumulated_rewards": []}}) }
            }
            q => anyhow::bail!("staking: {q:?}"),
        };
        Ok(Binary::from(out.to_string().into_bytes()))
    }
    fn sudo<ExecC, QueryC>(&self, _: &dyn Api, _: &mut dyn Storage, _: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, _: &BlockInfo, _: StakingSudo) -> anyhow::Result<AppResponse>
    where ExecC: std::fmt::Debug + Clone + PartialEq + schemars::JsonSchema + serde::de::DeserializeOwned + 'static, QueryC: CustomQuery + serde::de::DeserializeOwned + 'static {
        anyhow::bail!("staking: no sudo")
    }
}
impl Staking for Stk {
    fn process_queue<ExecC, QueryC: CustomQuery>(&self, api: &dyn Api, s: &mut dyn Storage, r: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, block: &BlockInfo) -> anyhow::Result<AppResponse> {
        if s.get(STAKE).is_none() { return Ok(AppResponse::default()); }
        let mut x = load(s);
        let now = block.time.seconds();
        let (done, left): (Vec<Value>, Vec<Value>) = x["unb"].as_array().unwrap().iter().cloned().partition(|e| e["end"].as_u64().unwrap() <= now);
        x["unb"] = json!(left);
        save(s, &x);
        for e in done.iter().filter(|e| amt(&e["n"]) > 0) {
            r.execute(api, s, block, Addr::unchecked(POOL), BankMsg::Send { to_address: e["who"].as_str().unwrap().into(), amount: coins(amt(&e["n"])) }.into())?;
        }
        Ok(AppResponse::default())
    }
}
pub struct Dis;
impl Module for Dis {
    type ExecT = DistributionMsg;
    type QueryT = Empty;
    type SudoT = Empty;
    fn execute<ExecC, QueryC>(&self, api: &dyn Api, s: &mut dyn Storage, r: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, block: &BlockInfo, sender: Addr, msg: DistributionMsg) -> anyhow::Result<AppResponse>
    where ExecC: std::fmt::Debug + Clone + PartialEq + schemars::JsonSchema + serde::de::DeserializeOwned + 'static, QueryC: CustomQuery + serde::de::DeserializeOwned + 'static {
        let mut x = load(s);
        match msg {
            DistributionMsg::SetWithdrawAddress { address } => {
                api.addr_validate(&address)?;
                x["to"][sender.as_str()] = json!(address);
            }
            DistributionMsg::WithdrawDelegatorReward { validator } => {
                val(&validator)?;
                anyhow::ensure!(amt(&x["del"][sender.as_str()][&validator]) > 0, "distribution: no delegation");
                pay(&mut x, api, s, r, block, sender.as_str(), &validator)?;
            }
            m => anyhow::bail!("distribution: {m:?}"),
        }
        save(s, &x);
        Ok(AppResponse::default())
    }
    fn query(&self, _: &dyn Api, _: &dyn Storage, _: &dyn Querier, _: &BlockInfo, _: Empty) -> anyhow::Result<Binary> {
        anyhow::bail!("distribution: no query")
    }
    fn sudo<ExecC, QueryC>(&self, _: &dyn Api, _: &mut dyn Storage, _: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>, _: &BlockInfo, _: Empty) -> anyhow::Result<AppResponse>
    where ExecC: std::fmt::Debug + Clone + PartialEq + schemars::JsonSchema + serde::de::DeserializeOwned + 'static, QueryC: CustomQuery + serde::de::DeserializeOwned + 'static {
        anyhow::bail!("distribution: no sudo")
    }
}
impl Distribution for Dis {}
