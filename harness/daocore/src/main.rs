//! dao-dao-core with driver-controlled modules, real cw20 and cw721 tokens.
use kit::cosmwasm_std::{
    from_json, to_json_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response,
    WasmMsg,
};
use kit::cw_multi_test::{Contract, ContractWrapper, Executor};
use kit::{anyhow, env::*, json, serde_json, Rng, Value, World};

const CORE: &str = "contract5";
const TOKS: [&str; 3] = ["contract0", "contract1", "contract2"];
const NFTS: [&str; 2] = ["contract3", "contract4"];
const KEYS: [&str; 6] = ["a", "A", "ab", "b", "k1", "zz"];
const MOD: u64 = 3;

/// a module: can hand callbacks to the DAO when instantiated, answers power queries
struct Mod;
fn val(d: &[u8]) -> Value {
    serde_json::from_slice(d).unwrap_or(Value::Null)
}
fn bin(v: &Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
impl Contract<Empty> for Mod {
    fn instantiate(&self, deps: DepsMut, _e: Env, _i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        let v = val(&m);
        if v["fail"] == json!(true) {
            anyhow::bail!("told to fail");
        }
        deps.storage.set(b"p", v["powers"].to_string().as_bytes());
        let r = Response::new();
        Ok(match v["cb"].as_array() {
            Some(a) if a.is_empty() => r,
            Some(a) => r.set_data(bin(&json!({ "msgs": a }))),
            None => r.set_data(Binary::from(b"not a callback".to_vec())),
        })
    }
    fn execute(&self, _d: DepsMut, _e: Env, _i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        let f: CosmosMsg<Empty> = from_json(bin(&val(&m)["forward"]))?;
        Ok(Response::new().add_message(f))
    }
    fn query(&self, deps: Deps, env: Env, m: Vec<u8>) -> anyhow::Result<Binary> {
        let v = val(&m);
        let p = val(&deps.storage.get(b"p").unwrap_or_default());
        for (k, who) in [("voting_power_at_height", v["voting_power_at_height"]["address"].as_str().unwrap_or("")), ("total_power_at_height", "total")] {
            if let Some(x) = v.get(k) {
                let h = x["height"].as_u64().unwrap_or(env.block.height);
                return Ok(bin(&json!({"power": p[who].as_str().unwrap_or("0"), "height": h})));
            }
        }
        anyhow::bail!("unknown query")
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        anyhow::bail!("no sudo")
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> anyhow::Result<Response> {
        anyhow::bail!("no reply")
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        Ok(Response::new())
    }
}

fn opt(v: &Value) -> Value {
    if v == "" { Value::Null } else { v.clone() }
}
fn spec(v: &Value) -> Value {
    // {"fail":b,"cb":[msgs] or "junk","adm":"core"|addr|"","fund":"n","powers":{..}}
    let cb = match v["cb"].as_array() {
        Some(a) => Value::Array(a.iter().map(|m| serde_json::to_value(cosmos(m)).unwrap()).collect()),
        None => json!("junk"),
    };
    json!({"code_id": MOD, "label": "mod", "msg": bin(&json!({"fail": v["fail"], "cb": cb, "powers": v["powers"]})),
        "admin": if v["adm"] == "core" { json!({"core_module": {}}) } else if v["adm"] == "" { Value::Null } else { json!({"address": {"addr": v["adm"]}}) },
        "funds": if v["fund"] == "0" { json!([]) } else { json!([{"denom": "ujuno", "amount": v["fund"]}]) }})
}
fn dur(v: &Value) -> Value {
    if v["k"] == "h" { json!({"height": v["v"]}) } else { json!({"time": v["v"]}) }
}
fn config(c: &Value) -> Value {
    json!({"name": c["name"], "description": c["desc"], "image_url": opt(&c["image"]), "automatically_add_cw20s": c["c20"],
        "automatically_add_cw721s": c["c721"], "dao_uri": opt(&c["uri"])})
}
fn specs(v: &Value) -> Vec<Value> {
    v.as_array().unwrap().iter().map(spec).collect()
}
fn core_msg(m: &Value) -> Value {
    let msgs = || Value::Array(m["msgs"].as_array().unwrap().iter().map(|x| serde_json::to_value(cosmos(x)).unwrap()).collect());
    match m["k"].as_str().unwrap() {
        "hook" => json!({"execute_proposal_hook": {"msgs": msgs()}}),
        "admin" => json!({"execute_admin_msgs": {"msgs": msgs()}}),
        "pause" => json!({"pause": {"duration": dur(&m["dur"])}}),
        "unpause" => json!({"unpause": {}}),
        "receive" => json!({"receive": {"sender": "alice", "amount": "1", "msg": ""}}),
        "receive_nft" => json!({"receive_nft": {"sender": "alice", "token_id": "1", "msg": ""}}),
        "rm_item" => json!({"remove_item": {"key": m["key"]}}),
        "set_item" => json!({"set_item": {"key": m["key"], "value": m["val"]}}),
        "cfg" => json!({"update_config": {"config": config(&m["c"])}}),
        "c20" => json!({"update_cw20_list": {"to_add": m["add"], "to_remove": m["rm"]}}),
        "c721" => json!({"update_cw721_list": {"to_add": m["add"], "to_remove": m["rm"]}}),
        "vm" => json!({"update_voting_module": {"module": spec(&m["mod"])}}),
        "pm" => json!({"update_proposal_modules": {"to_add": specs(&m["add"]), "to_disable": m["dis"]}}),
        "nominate" => json!({"nominate_admin": {"admin": opt(&m["who"])}}),
        "accept" => json!({"accept_admin_nomination": {}}),
        "withdraw" => json!({"withdraw_admin_nomination": {}}),
        "subs" => json!({"update_sub_daos": {"to_remove": m["rm"],
            "to_add": m["add"].as_array().unwrap().iter().map(|x| json!({"addr": x[0], "charter": opt(&x[1])})).collect::<Vec<_>>()}}),
        k => panic!("msg {k}"),
    }
}
fn cosmos(m: &Value) -> CosmosMsg {
    match m["k"].as_str().unwrap() {
        "self" => WasmMsg::Execute { contract_addr: CORE.into(), msg: bin(&core_msg(&m["m"])), funds: vec![] }.into(),
        "pay" => BankMsg::Send { to_address: st(&m["to"]), amount: vec![Coin { denom: "ujuno".into(), amount: u(&m["a"]) }] }.into(),
        _ => WasmMsg::Execute { contract_addr: "nosuchcontract".into(), msg: to_json_binary(&"x").unwrap(), funds: vec![] }.into(),
    }
}

pub struct W {
    app: App,
    core: Addr,
    code: u64,
    nft: u64,
    page: Value,
}
fn ser(e: &Value) -> Value {
    let (h, t) = (&e["at_height"], &e["at_time"]);
    if let Some(h) = h.as_u64() { return json!({"k": "h", "v": h as i64 - H0 as i64}); }
    if let Some(t) = t.as_str() { return json!({"k": "t", "v": (t.parse::<u64>().unwrap() / 1_000_000_000) as i64 - T0 as i64}); }
    json!({"k": "none", "v": 0})
}
/// tokens, module code and the core contract's code
fn setup() -> anyhow::Result<(App, u64)> {
    let mut app = app();
    let c20 = app.store_code(cw20_contract());
    let c721 = app.store_code(Box::new(ContractWrapper::new(
        cw721_base::entry::execute,
        cw721_base::entry::instantiate,
        cw721_base::entry::query,
    )));
    let m = app.store_code(Box::new(Mod));
    assert_eq!(m, MOD);
    let code = app.store_code(Box::new(
        ContractWrapper::new(
            dao_dao_core::contract::execute,
            dao_dao_core::contract::instantiate,
            dao_dao_core::contract::query,
        )
        .with_reply(dao_dao_core::contract::reply)
        .with_migrate(dao_dao_core::contract::migrate),
    ));
    for _ in TOKS {
        new_cw20(&mut app, c20, &[("alice", 1_000_000)]);
    }
    for _ in NFTS {
        app.instantiate_contract(c721, Addr::unchecked("nftminter"),
            &cw721_base::InstantiateMsg { name: "n".into(), symbol: "N".into(), minter: "nftminter".into() }, &[], "nft", None)?;
    }
    Ok((app, code))
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let (mut app, code) = setup()?;
    mint(&mut app, "deployer", "ujuno", 1_000);
    let c = &cfg["cfg"];
    let funds = if cfg["fund"] == "0" { vec![] } else { vec![Coin { denom: "ujuno".into(), amount: u(&cfg["fund"]) }] };
    let core = app.instantiate_contract(
        code,
        Addr::unchecked("deployer"),
        &json!({"admin": opt(&cfg["admin"]), "name": c["name"], "description": c["desc"], "image_url": opt(&c["image"]),
            "automatically_add_cw20s": c["c20"], "automatically_add_cw721s": c["c721"], "dao_uri": opt(&c["uri"]),
            "voting_module_instantiate_info": spec(&cfg["vm"]), "proposal_modules_instantiate_info": specs(&cfg["mods"]),
            "initial_items": if cfg["noitems"] == json!(true) { Value::Null } else {
                json!(cfg["items"].as_array().unwrap().iter().map(|x| json!({"key": x[0], "value": x[1]})).collect::<Vec<_>>()) }}),
        &funds,
        "dao",
        Some("deployer".into()),
    )?;
    assert_eq!(core.as_str(), CORE);
    Ok(Box::new(W { app, core, code, nft: 0, page: json!([]) }))
}
impl W {
    fn q(&self, m: Value) -> Value {
        q(&self.app, &self.core, &m)
    }
    fn page(&self, l: &str, after: &Value, limit: &Value) -> Value {
        let a = json!({"start_after": after, "limit": limit});
        let name = match l {
            "items" => "list_items",
            "subs" => "list_sub_daos",
            "c20" => "cw20_token_list",
            "bals" => "cw20_balances",
            "c721" => "cw721_token_list",
            "mods" => "proposal_modules",
            _ => "active_proposal_modules",
        };
        let v = self.q(json!({ name: a }));
        let rows = match v.as_array() {
            Some(r) => r,
            None => return json!(["error"]),
        };
        Value::Array(rows.iter().map(|x| match l {
            "items" | "c20" | "c721" => x.clone(),
            "subs" => json!([x["addr"], x["charter"].as_str().unwrap_or("")]),
            "bals" => json!([x["addr"], x["balance"]]),
            _ => json!([x["address"], if x["status"] == "enabled" || x["status"].get("enabled").is_some() { "enabled" } else { "disabled" }, x["prefix"]]),
        }).collect())
    }
    fn all(&self, l: &str) -> Value {
        self.page(l, &Value::Null, &Value::Null)
    }
    fn key(l: &str, row: &Value) -> Value {
        if l == "c20" || l == "c721" { row.clone() } else { row[0].clone() }
    }
    /// the listing collected page by page
    fn walk(&self, l: &str, n: u64) -> Value {
        let mut out: Vec<Value> = vec![];
        let mut after = Value::Null;
        for _ in 0..200 {
            let p = self.page(l, &after, &json!(n));
            let rows = p.as_array().unwrap().clone();
            if rows.is_empty() || rows[0] == "error" { break; }
            after = Self::key(l, rows.last().unwrap());
            out.extend(rows);
        }
        Value::Array(out)
    }
    fn admin_of(&self, a: &str) -> Value {
        self.app.contract_data(&Addr::unchecked(a)).map(|d| json!(d.admin.map(|x| x.to_string()).unwrap_or_default())).unwrap_or(json!("?"))
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        match op["o"].as_str().unwrap() {
            "call" => {
                let m: CosmosMsg = WasmMsg::Execute { contract_addr: CORE.into(), msg: bin(&core_msg(&op["m"])), funds: vec![] }.into();
                res(run(&mut self.app, &by, m))
            }
            "send20" => exec(&mut self.app, &by, &Addr::unchecked(st(&op["tok"])),
                &json!({"send": {"contract": CORE, "amount": op["a"], "msg": ""}}), &[]),
            "xfer20" => exec(&mut self.app, &by, &Addr::unchecked(st(&op["tok"])), &json!({"transfer": {"recipient": CORE, "amount": op["a"]}}), &[]),
            "sendnft" => {
                self.nft += 1;
                let (c, id) = (Addr::unchecked(st(&op["tok"])), self.nft.to_string());
                self.app.execute_contract(Addr::unchecked("nftminter"), c.clone(),
                    &json!({"mint": {"token_id": id, "owner": by, "token_uri": null, "extension": null}}), &[]).unwrap();
                exec(&mut self.app, &by, &c, &json!({"send_nft": {"contract": CORE, "token_id": id, "msg": ""}}), &[])
            }
            "page" => {
                let after = if op["first"] == json!(true) { Value::Null } else { op["after"].clone() };
                let n = if op["n"].as_i64().unwrap() < 0 { Value::Null } else { op["n"].clone() };
                self.page = self.page(op["l"].as_str().unwrap(), &after, &n);
                (true, json!({}))
            }
            "migrate" => {
                let m = if op["k"] == "v1" { json!({"from_v1": {"dao_uri": "v1", "params": null}}) } else { json!({"from_compatible": {}}) };
                res(self.app.migrate_contract(Addr::unchecked(by), self.core.clone(), &m, self.code))
            }
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            o => panic!("op {o}"),
        }
    }
    fn obs(&mut self) -> Value {
        let c = self.q(json!({"config": {}}));
        let pi = self.q(json!({"pause_info": {}}));
        let nc = self.q(json!({"proposal_module_count": {}}));
        let mods = self.all("mods");
        let vm = self.q(json!({"voting_module": {}}));
        let mut o = json!({"admin": self.q(json!({"admin": {}})),
            "nom": self.q(json!({"admin_nomination": {}}))["nomination"].as_str().unwrap_or(""),
            "paused": if pi.get("unpaused").is_some() { json!({"k": "none", "v": 0}) } else { ser(&pi["paused"]["expiration"]) },
            "cfg": {"name": c["name"], "desc": c["description"], "image": c["image_url"].as_str().unwrap_or(""), "c20": c["automatically_add_cw20s"],
                "c721": c["automatically_add_cw721s"], "uri": c["dao_uri"].as_str().unwrap_or("")},
            "uri": self.q(json!({"dao_u_r_i": {}}))["dao_uri"].as_str().unwrap_or(""),
            "vm": vm, "active": nc["active_proposal_module_count"], "total": nc["total_proposal_module_count"], "page": self.page});
        for l in ["items", "subs", "c20", "c721", "mods", "act", "bals"] {
            let full = self.all(l);
            for n in [1, 2, 3, 50] {
                let w = self.walk(l, n);
                if w != full && full != json!(["error"]) { o[format!("walk_{l}")] = w; }
            }
            o[l] = full;
        }
        for l in ["items", "subs", "c20", "c721", "mods", "act", "bals"] {
            if o.get(format!("walk_{l}")).is_none() { o[format!("walk_{l}")] = json!("same"); }
        }
        o["get"] = map(KEYS.iter().map(|k| (format!("k{k}"), self.q(json!({"get_item": {"key": k}}))["item"].clone())).map(|(k, v)| (k, if v.is_null() { json!("(none)") } else { v })));
        let h = self.app.block_info().height;
        let pw = |w: &str, hh: Option<u64>| { let v = self.q(json!({"voting_power_at_height": {"address": w, "height": hh}}));
            if hh.is_some() && v["height"] != json!(hh.unwrap()) { json!("wrong height") } else { v["power"].clone() } };
        o["power"] = json!({"alice": pw("alice", None), "bob": pw("bob", Some(h - 3)), "total": self.q(json!({"total_power_at_height": {}}))["power"]});
        let mut who: Vec<String> = vec![CORE.into(), "payee1".into(), vm.as_str().unwrap_or("x").into()];
        who.extend(mods.as_array().unwrap().iter().filter_map(|m| m[0].as_str().map(String::from)));
        who.sort();
        who.dedup();
        o["bal"] = map(who.iter().map(|w| (w.clone(), json!(bal(&self.app, &Addr::unchecked(w), "ujuno")))));
        o["adm"] = map(who.iter().filter(|w| *w != "payee1").map(|w| (w.clone(), self.admin_of(w))));
        let d = self.q(json!({"dump_state": {}}));
        o["dump"] = json!(d["admin"] == o["admin"] && d["config"] == c && d["voting_module"] == o["vm"] && d["pause_info"] == pi
            && d["active_proposal_module_count"] == o["active"] && d["total_proposal_module_count"] == o["total"]
            && d["proposal_modules"] == self.q(json!({"proposal_modules": {}})));
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let o = self.obs();
        gen_op(r, &o, &self.app)
    }
}
fn gen_cfg(r: &mut Rng) -> Value {
    json!({"name": r.s(&["n1", "n2"]), "desc": r.s(&["d1", "d2"]), "image": r.s(&["", "img"]), "c20": r.chance(1, 2), "c721": r.chance(1, 2), "uri": r.s(&["", "uri"])})
}
fn gen_mod(r: &mut Rng, o: &Value, depth: u64) -> Value {
    let cb = if r.chance(1, 20) { json!("junk") } else if depth > 0 && r.chance(1, if o.get("mods").is_some() { 5 } else { 20 }) { json!(gen_msgs(r, o, depth - 1)) } else { json!([]) };
    json!({"fail": r.chance(1, 30), "cb": cb, "adm": r.s(&["core", "core", "", "alice"]), "fund": r.s(&["0", "0", "0", "1", "7"]),
        "powers": {"alice": r.below(9).to_string(), "bob": r.below(9).to_string(), "total": r.below(99).to_string()}})
}
fn col(o: &Value, f: &str, i: usize) -> Vec<String> {
    o[f].as_array().map(|a| a.iter().filter_map(|x| x[i].as_str().map(String::from)).collect()).unwrap_or_default()
}
fn mods_with(o: &Value, s: &str) -> Vec<String> {
    o["mods"].as_array().map(|a| a.iter().filter(|x| x[1] == s).filter_map(|x| x[0].as_str().map(String::from)).collect()).unwrap_or_default()
}
fn addr(r: &mut Rng, o: &Value) -> String {
    let m = col(o, "mods", 0);
    match r.below(8) {
        0 | 1 if !m.is_empty() => r.pick(&m).clone(),
        2 => CORE.into(),
        3 => r.s(&TOKS),
        4 => o["admin"].as_str().unwrap_or("alice").into(),
        5 => { let n = o["nom"].as_str().unwrap_or(""); if n.is_empty() { r.s(&USERS) } else { n.into() } }
        6 => o["vm"].as_str().unwrap_or("alice").into(),
        _ => r.s(&USERS),
    }
}
fn gen_msgs(r: &mut Rng, o: &Value, depth: u64) -> Vec<Value> {
    let n = *r.pick(&[0u64, 1, 1, 1, 2, 2, 3]);
    if depth > 1 && r.chance(1, 25) {
        let n = r.range(11, 70);
        return (0..n).map(|i| if i % 7 == 3 { json!({"k": "pay", "to": "payee1", "a": "1"}) } else { json!({"k": "self", "m": {"k": "set_item", "key": r.s(&KEYS), "val": r.s(&["v1", "v2", "v3"])}}) }).collect();
    }
    (0..n).map(|_| match r.below(12) {
        0..=2 => json!({"k": "pay", "to": "payee1", "a": *r.pick(&["1", "2", "5", "40"])}),
        3 => json!({"k": "fail"}),
        _ => { let m = gen_msg(r, o, depth, true); json!({"k": "self", "m": m}) }
    }).collect()
}
/// a message to the core contract; `own`: meant to be sent by the DAO itself
fn gen_msg(r: &mut Rng, o: &Value, depth: u64, own: bool) -> Value {
    let en = mods_with(o, "enabled");
    let d = if own { 3 } else { 1 };
    let nest = if depth == 0 { 0 } else { 3 };
    match r.wn(&[(nest, "hook"), (nest, "admin"), (d, "pause"), (3, "unpause"), (1, "receive"), (1, "receive_nft"), (2 * d, "rm_item"), (3 * d, "set_item"), (d, "cfg"),
        (2 * d, "c20"), (d, "c721"), (d, "vm"), (4 * d, "pm"), (3, "nominate"), (3, "accept"), (2, "withdraw"), (2 * d, "subs")]) {
        "hook" => json!({"k": "hook", "msgs": gen_msgs(r, o, depth - 1)}),
        "admin" => json!({"k": "admin", "msgs": gen_msgs(r, o, depth - 1)}),
        "pause" => json!({"k": "pause", "dur": {"k": if r.chance(1, 2) { "h" } else { "t" }, "v": r.below(7)}}),
        "rm_item" => json!({"k": "rm_item", "key": r.s(&KEYS)}),
        "set_item" => json!({"k": "set_item", "key": r.s(&KEYS), "val": r.s(&["v1", "v2", "v3"])}),
        "cfg" => json!({"k": "cfg", "c": gen_cfg(r)}),
        "c20" => { let xs = ["contract0", "contract1", "contract2", "contract0", "contract1", "contract2", "contract0", "contract3", "alice", CORE];
            json!({"k": "c20", "add": r.list(&xs, 3), "rm": r.list(&xs, 2)}) }
        "c721" => { let xs = ["contract3", "contract4", "contract3", "contract4", "contract1", "bob"]; json!({"k": "c721", "add": r.list(&xs, 2), "rm": r.list(&xs, 2)}) }
        "vm" => json!({"k": "vm", "mod": gen_mod(r, o, depth.min(1))}),
        "pm" => {
            let na = *r.pick(&[0u64, 0, 1, 1, 1, 2]);
            let add: Vec<Value> = (0..na).map(|_| gen_mod(r, o, depth.min(1))).collect();
            let mut dis: Vec<String> = vec![];
            match r.below(6) {
                0 => dis = en.clone(),
                1 => { for _ in 0..2 { dis.push(addr(r, o)); } }
                2 | 3 if !en.is_empty() => dis.push(r.pick(&en).clone()),
                4 if !en.is_empty() => { for e in &en { if r.chance(1, 2) { dis.push(e.clone()); } } if r.chance(1, 4) && !dis.is_empty() { dis.push(dis[0].clone()); } }
                _ => {}
            }
            json!({"k": "pm", "add": add, "dis": dis})
        }
        "nominate" => json!({"k": "nominate", "who": if r.chance(1, 4) { String::new() } else { addr(r, o) }}),
        "subs" => {
            let xs = ["sub1", "sub2", "sub10", "zed"];
            let add: Vec<Value> = r.list(&xs, 3).into_iter().map(|a| json!([a, r.s(&["", "c1", "c2"])])).collect();
            json!({"k": "subs", "add": add, "rm": r.list(&xs, 2)})
        }
        k => json!({ "k": k }),
    }
}
fn gen_op(r: &mut Rng, o: &Value, app: &App) -> Value {
    let now = app.block_info();
    match r.wn(&[(60, "call"), (4, "send20"), (2, "xfer20"), (3, "sendnft"), (6, "page"), (8, "adv"), (1, "migrate")]) {
        "call" => {
            let en = mods_with(o, "enabled");
            let dis = mods_with(o, "disabled");
            let admin = o["admin"].as_str().unwrap_or("alice").to_string();
            match r.below(20) {
                // governance acts
                0..=7 if !en.is_empty() => json!({"o": "call", "by": r.pick(&en), "m": {"k": "hook", "msgs": gen_msgs(r, o, 2)}}),
                8..=9 => json!({"o": "call", "by": admin, "m": {"k": "admin", "msgs": gen_msgs(r, o, 2)}}),
                10..=12 => { let m = gen_msg(r, o, 2, true); json!({"o": "call", "by": CORE, "m": m}) }
                13 | 14 => { let m = *r.pick(&["nominate", "withdraw", "unpause"]);
                    json!({"o": "call", "by": admin, "m": if m == "nominate" { json!({"k": m, "who": if r.chance(1, 4) { String::new() } else { addr(r, o) }}) } else { json!({"k": m}) }}) }
                15 if o["nom"] != "" => json!({"o": "call", "by": o["nom"], "m": {"k": "accept"}}),
                16 if !dis.is_empty() => json!({"o": "call", "by": r.pick(&dis), "m": {"k": "hook", "msgs": gen_msgs(r, o, 1)}}),
                _ => { let by = addr(r, o); let own = r.chance(1, 2); let m = gen_msg(r, o, 2, own); json!({"o": "call", "by": by, "m": m}) }
            }
        }
        "send20" => json!({"o": "send20", "by": "alice", "tok": r.s(&TOKS), "a": r.range(1, 9).to_string()}),
        "xfer20" => json!({"o": "xfer20", "by": "alice", "tok": r.s(&TOKS), "a": r.range(1, 9).to_string()}),
        "sendnft" => json!({"o": "sendnft", "by": "alice", "tok": r.s(&NFTS)}),
        "page" => {
            let l = r.s(&["items", "subs", "c20", "c721", "mods", "act", "bals"]);
            let rows = o[&l].as_array().cloned().unwrap_or_default();
            let after = if !rows.is_empty() && r.chance(2, 3) { let x = r.pick(&rows).clone(); let k = W::key(&l, &x); if k.is_string() { k } else { json!("bob") } }
                else if l == "items" { json!(r.s(&["a", "aa", "z", ""])) } else { json!(r.s(&["alice", "contract1", "contract9", "sub3", "zzz"])) };
            json!({"o": "page", "l": l, "first": r.chance(1, 3), "after": after, "n": r.below(5) as i64 - 1})
        }
        "migrate" => json!({"o": "migrate", "by": if r.chance(3, 4) { "deployer".to_string() } else { r.s(&USERS) }, "k": r.s(&["same", "v1"])}),
        _ => {
            let (n, s) = (r.below(3), r.below(8));
            let p = &o["paused"];
            let v = p["v"].as_i64().unwrap_or(0);
            // land on or next to the end of the pause
            if p["k"] == "h" && r.chance(1, 2) {
                let d = v + H0 as i64 - now.height as i64 - r.below(2) as i64;
                return json!({"o": "adv", "n": d.max(0), "s": s});
            }
            if p["k"] == "t" && r.chance(1, 2) {
                let d = v + T0 as i64 - now.time.seconds() as i64 - r.below(2) as i64;
                return json!({"o": "adv", "n": n, "s": d.max(0)});
            }
            json!({"o": "adv", "n": n, "s": s})
        }
    }
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let e = json!({});
    let n = match r.below(20) { 0 => 0, 1..=8 => 1, 9..=14 => 2, 15..=17 => 3, _ => 4 };
    let n = if focus == "modules" && r.chance(1, 20) { r.range(25, 30) } else { n };
    let mut mods = vec![];
    for _ in 0..n {
        let mut m = gen_mod(r, &e, 1);
        m["fund"] = json!(*r.pick(&["0", "0", "0", "0", "0", "0", "1"]));
        if n > 4 { m["fail"] = json!(false); m["cb"] = json!([]); m["fund"] = json!("0"); }
        mods.push(m);
    }
    let ni = r.below(4);
    let mut keys: Vec<String> = KEYS.iter().map(|k| k.to_string()).collect();
    let items: Vec<Value> = (0..ni).map(|_| { let i = r.below(keys.len() as u64) as usize;
        let k = if r.chance(1, if focus == "found" { 8 } else { 30 }) { keys[i].clone() } else { keys.remove(i) }; json!([k, r.s(&["v1", "v2", ""])]) }).collect();
    let mut vm = gen_mod(r, &e, 1);
    if r.chance(9, 10) { vm["fund"] = json!("0"); }
    json!({"cfg": gen_cfg(r), "admin": r.s(&["", "", "alice", "bob"]), "vm": vm, "mods": mods, "items": items,
        "noitems": items.is_empty() && r.chance(1, 2), "fund": *r.pick(&["0", "10", "10", "100", "100"])})
}
mod up;
fn main() {
    kit::main(&[kit::Suite { name: "core", cfg, new }, kit::Suite { name: "coreup", cfg: up::cfg, new: up::new }]);
}
