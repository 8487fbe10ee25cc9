//! Voting power from staked NFTs: dao-voting-cw721-staked and dao-voting-onft-staked.
use crate::common::*;
use kit::chain::pb;
use kit::cosmwasm_std::{Addr, Binary, CosmosMsg};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, mock, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "nft", cfg, new };
const USERS: [&str; 3] = ["alice", "bob", "carol"];
const COLL: &str = "onftdenom";

struct W {
    app: App,
    /// the code of the module, and of its older release
    code: [u64; 2],
    /// whether the module is renewed
    ren: bool,
    kind: String,
    src: String,
    mode: String,
    lab: Labels,
    ids: Vec<String>,
    prep: std::collections::BTreeMap<String, String>,
    at: Value,
    page: Value,
    seen: Vec<i64>,
}
fn mint_msg(id: &str, to: &str) -> Value {
    json!({"mint": {"token_id": id, "owner": to, "token_uri": null, "extension": {}}})
}
fn sg(t: &str, fields: &[(u32, &str)]) -> CosmosMsg {
    let f: Vec<(u32, &[u8])> = fields.iter().map(|(a, b)| (*a, b.as_bytes())).collect();
    CosmosMsg::Stargate { type_url: format!("/OmniFlix.onft.v1beta1.{t}"), value: Binary::from(pb(&f)) }
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let kind = st(&cfg["kind"]);
    let src = st(&cfg["src"]);
    let mut app = app();
    let mut lab = Labels::default();
    let mock_code = app.store_code(Box::new(mock::Mock));
    let core = core_code(&mut app);
    listeners(&mut app, mock_code, &mut lab);
    let own: Vec<(String, String)> = cfg["own"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), st(v))).collect()).unwrap_or_default();
    let nft = app.store_code(Box::new(ContractWrapper::new(cw721_base::entry::execute, cw721_base::entry::instantiate, cw721_base::entry::query)));
    let coll = |app: &mut App, own: &[(String, String)]| -> anyhow::Result<Addr> {
        let c = app.instantiate_contract(nft, Addr::unchecked("minter"), &json!({"name": "n", "symbol": "N", "minter": "minter"}), &[], "n", None)?;
        for (id, to) in own { app.execute_contract(Addr::unchecked("minter"), c.clone(), &mint_msg(id, to), &[])?; }
        Ok(c)
    };
    let code;
    let vote = if kind == "cw721" {
        let fake = coll(&mut app, &[("t1".into(), "alice".into()), ("t2".into(), "bob".into())])?;
        lab.add(&fake, "fake");
        code = renewable(&mut app, || Box::new(ContractWrapper::new(dao_voting_cw721_staked::contract::execute, dao_voting_cw721_staked::contract::instantiate, dao_voting_cw721_staked::contract::query).with_reply(dao_voting_cw721_staked::contract::reply).with_migrate(dao_voting_cw721_staked::contract::migrate)));
        let info = if src == "existing" { json!({"existing": {"address": coll(&mut app, &own)?.to_string()}}) }
        else if src == "new" || src == "nomint" {
            let init: Vec<Value> = if src == "new" { own.iter().map(|(id, to)| json!(b(&mint_msg(id, to)))).collect() } else { vec![json!(b(&json!({"approve_all": {"operator": "alice"}})))] };
            json!({"new": {"code_id": nft, "label": "n", "msg": b(&json!({"name": "n", "symbol": "N", "minter": "alice"})), "initial_nfts": init}})
        } else {
            let fac = app.store_code(Box::new(Factory));
            let f = app.instantiate_contract(fac, Addr::unchecked("deployer"), &json!({}), &[], "f", None)?;
            let data = match src.as_str() {
                "factory" => json!({"nft_contract": coll(&mut app, &own)?.to_string(), "module_instantiate_callback": null}),
                "notnft" => json!({"nft_contract": f.to_string(), "module_instantiate_callback": null}),
                _ => Value::Null,
            };
            let m = if src == "badmsg" { json!({"clear_admin": {"contract_addr": f.to_string()}}) } else { json!({"execute": {"contract_addr": f.to_string(), "msg": b(&json!({"data": data})), "funds": []}}) };
            json!({"factory": b(&m)})
        };
        modinfo(code[0], json!({"nft_contract": info, "unstaking_duration": dur(&cfg["dur"]), "active_threshold": thr(&cfg["act"])}))
    } else {
        for (id, to) in &own { app.execute(Addr::unchecked("minter"), sg("MsgMintONFT", &[(1, id), (2, COLL), (10, to)]))?; }
        code = renewable(&mut app, || Box::new(ContractWrapper::new(dao_voting_onft_staked::contract::execute, dao_voting_onft_staked::contract::instantiate, dao_voting_onft_staked::contract::query).with_migrate(dao_voting_onft_staked::contract::migrate)));
        modinfo(code[0], json!({"onft_collection": {"existing": {"id": COLL}}, "unstaking_duration": dur(&cfg["dur"]), "active_threshold": thr(&cfg["act"])}))
    };
    dao(&mut app, core, mock_code, vote, &mut lab)?;
    if kind == "cw721" {
        let c = q(&app, &Addr::unchecked(lab.addr("vote")), &json!({"config": {}}));
        lab.add(&Addr::unchecked(st(&c["nft_address"])), "nft");
    }
    let mut w = W { app, code, ren: cfg["renew"] == true, kind, src, mode: cfg["mode"].as_str().unwrap_or("").into(), lab, prep: Default::default(), ids: own.into_iter().map(|x| x.0).collect(), at: json!({}), page: json!([]), seen: vec![0] };
    w.at = at(&w.app, &w.lab, &USERS, 0);
    Ok(Box::new(w))
}
impl W {
    fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn cw(&self) -> bool {
        self.kind == "cw721"
    }
    fn call(&mut self, by: &str, to: &str, msg: &Value) -> (bool, Value) {
        let (by, to) = (self.lab.addr(by), self.a(to));
        exec(&mut self.app, &by, &to, msg, &[])
    }
    fn chain(&mut self, by: &str, m: CosmosMsg) -> (bool, Value) {
        let by = self.lab.addr(by);
        res(run(&mut self.app, &by, m))
    }
    fn owner(&self, id: &str) -> Option<String> {
        let a = if self.cw() {
            q(&self.app, &self.a("nft"), &json!({"owner_of": {"token_id": id, "include_expired": null}}))["owner"].as_str().map(|x| x.to_string())
        } else { onft_owner(&self.app, id) };
        a.map(|x| self.lab.label(&x))
    }
    fn staked(&self, w: &str) -> Vec<String> {
        strs(&q(&self.app, &self.a("vote"), &json!({"staked_nfts": {"address": w, "start_after": null, "limit": null}})))
    }
    fn transfer(&self, by: &str, to: &str, id: &str) -> CosmosMsg {
        let (by, to) = (self.lab.addr(by), self.lab.addr(to));
        if self.cw() { wexec(&self.lab.addr("nft"), &json!({"transfer_nft": {"recipient": to, "token_id": id}}), vec![]) }
        else { sg("MsgTransferONFT", &[(1, id), (2, COLL), (3, &by), (4, &to)]) }
    }
    fn mint(&mut self, id: &str, to: &str) -> (bool, Value) {
        let to = self.lab.addr(to);
        let r = if self.cw() { let m = if self.src == "new" { "dao" } else { "minter" }; self.call(m, "nft", &mint_msg(id, &to)) } else { self.chain("minter", sg("MsgMintONFT", &[(1, id), (2, COLL), (10, &to)])) };
        if r.0 && !self.ids.iter().any(|x| x == id) { self.ids.push(id.into()); self.ids.sort(); }
        r
    }
}
fn onft_owner(app: &App, id: &str) -> Option<String> {
    use kit::cosmwasm_std::{ContractResult, Empty, Querier, QueryRequest, SystemResult};
    let rq: QueryRequest<Empty> = QueryRequest::Stargate { path: "/OmniFlix.onft.v1beta1.Query/ONFT".into(), data: Binary::from(pb(&[(1, COLL.as_bytes()), (2, id.as_bytes())])) };
    match app.raw_query(&kit::cosmwasm_std::to_json_vec(&rq).unwrap()) {
        SystemResult::Ok(ContractResult::Ok(x)) => kit::serde_json::from_slice::<Value>(&x).ok().and_then(|v| v["onft"]["owner"].as_str().map(|x| x.to_string())),
        _ => None,
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        let id = op["id"].as_str().unwrap_or("").to_string();
        let ids = strs(&op["ids"]);
        match op["o"].as_str().unwrap() {
            "stake" => { let m = json!({"send_nft": {"contract": self.lab.addr("vote"), "token_id": id, "msg": b(&json!({}))}}); self.call(&by, op["t"].as_str().unwrap(), &m) }
            "recv" => self.call(&by, "vote", &json!({"receive_nft": {"sender": by, "token_id": id, "msg": b(&json!({}))}})),
            "prep" => { let x = self.call(&by, "vote", &json!({"prepare_stake": {"token_ids": ids}})); if x.0 { for i in ids { self.prep.insert(i, by.clone()); } } x }
            "conf" => self.call(&by, "vote", &json!({"confirm_stake": {"token_ids": ids}})),
            "cancel" => {
                let to = op["to"].as_str().unwrap();
                let to = if to.is_empty() { Value::Null } else { json!(self.lab.addr(to)) };
                self.call(&by, "vote", &json!({"cancel_stake": {"token_ids": ids, "recipient": to}}))
            }
            "unstake" => self.call(&by, "vote", &json!({"unstake": {"token_ids": ids}})),
            "claim" => self.call(&by, "vote", &json!({"claim_nfts": {}})),
            "bulk" => {
                // minted first, so that a refused stake leaves nothing behind: only done when no listener fails
                for id in &ids { let r = self.mint(id, &by); if !r.0 { return r; } }
                let v = self.lab.addr("vote");
                let mut ms = vec![];
                if self.cw() {
                    let n = self.lab.addr("nft");
                    for id in &ids { ms.push(wexec(&n, &json!({"send_nft": {"contract": v, "token_id": id, "msg": b(&json!({}))}}), vec![])); }
                } else {
                    ms.push(wexec(&v, &json!({"prepare_stake": {"token_ids": ids}}), vec![]));
                    for id in &ids { ms.push(self.transfer(&by, "vote", id)); }
                    ms.push(wexec(&v, &json!({"confirm_stake": {"token_ids": ids}}), vec![]));
                }
                multi(&mut self.app, &by, ms)
            }
            "dur" => { let m = json!({"update_config": {"duration": dur(&op["d"])}}); self.call(&by, "vote", &m) }
            "thr" => { let m = json!({"update_active_threshold": {"new_threshold": thr(&op["t"])}}); self.call(&by, "vote", &m) }
            "hook" => {
                let k = if op["add"] == true { "add_hook" } else { "remove_hook" };
                let m = json!({k: {"addr": self.lab.addr(op["who"].as_str().unwrap())}});
                self.call(&by, "vote", &m)
            }
            "renew" => { let (c, d) = (self.a("vote"), self.lab.addr("dao")); let by = self.lab.addr(&by); renew(&mut self.app, self.code, &c, &d, &by, op["from"].as_str().unwrap()) }
            "fail" => self.call("deployer", op["who"].as_str().unwrap(), &json!({"set_fail": op["on"]})),
            "move" => { let m = self.transfer(&by, op["to"].as_str().unwrap(), &id); self.chain(&by, m) }
            "mint" => self.mint(&id, op["to"].as_str().unwrap()),
            "burn" => if self.cw() { self.call(&by, "nft", &json!({"burn": {"token_id": id}})) } else { let a = self.lab.addr(&by); self.chain(&by, sg("MsgBurnONFT", &[(1, &id), (2, COLL), (3, &a)])) },
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            "at" => { self.at = at(&self.app, &self.lab, &USERS, op["h"].as_i64().unwrap()); (true, json!({})) }
            "page" => {
                let l = op["limit"].as_i64().unwrap();
                let after = if op["after"] == "" { Value::Null } else { op["after"].clone() };
                self.page = q(&self.app, &self.a("vote"), &json!({"staked_nfts": {"address": op["who"], "start_after": after, "limit": if l < 0 { Value::Null } else { json!(l) }}}));
                (true, json!({}))
            }
            x => panic!("op {x}"),
        }
    }
    fn obs(&mut self) -> Value {
        let (p, t) = powers(&self.app, &self.lab, &USERS, None);
        let mut o = json!({"now": clock(&self.app), "power": p, "total": t, "at": self.at.clone(), "page": self.page.clone()});
        let v = self.a("vote");
        o["own"] = map(self.ids.iter().filter_map(|id| self.owner(id).map(|w| (id.clone(), json!(w)))));
        o["staked"] = map(USERS.iter().map(|w| (w.to_string(), json!(self.staked(w)))));
        o["act"] = jthr(&q(&self.app, &v, &json!({"active_threshold": {}})));
        o["active"] = q(&self.app, &v, &json!({"is_active": {}}))["active"].clone();
        let c = q(&self.app, &v, &json!({"config": {}}));
        o["dur"] = jdur(&c["unstaking_duration"]);
        o["claims"] = map(USERS.iter().map(|w| {
            let x = q(&self.app, &v, &json!({"nft_claims": {"address": w}}));
            (w.to_string(), x["nft_claims"].as_array().map(|a| Value::Array(a.iter().map(|e| json!({"id": e["token_id"], "e": jexp(&e["release_at"])})).collect())).unwrap_or(x))
        }));
        o["hooks"] = labels(&self.lab, &q(&self.app, &v, &json!({"hooks": {}}))["hooks"]);
        o["ord"] = order(&self.app, &self.lab);
        o["log"] = logs(&self.app, &self.lab, |m| {
            let x = &m["nft_stake_change_hook"];
            if let Some(e) = x.get("stake") { format!("stake:{}:{}", e["addr"].as_str().unwrap_or("?"), e["token_id"].as_str().unwrap_or("?")) }
            else { format!("unstake:{}:{}", x["unstake"]["addr"].as_str().unwrap_or("?"), strs(&x["unstake"]["token_ids"]).join(",")) }
        });
        o["made"] = json!({"vote": admin_of(&self.app, &self.lab, "vote"), "nft": if self.cw() { admin_of(&self.app, &self.lab, "nft") } else { json!("") }});
        o["daoq"] = json!(self.lab.label(q(&self.app, &v, &json!({"dao": {}})).as_str().unwrap_or("?")));
        o["minter"] = if self.cw() { json!(self.lab.label(q(&self.app, &self.a("nft"), &json!({"minter": {}}))["minter"].as_str().unwrap_or("?"))) } else { json!("minter") };
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let (c, n) = (self.cw() as u32, (!self.cw()) as u32);
        let f = |m: &str, yes: u32, no: u32| if self.mode == m { yes } else { no };
        let own: Vec<(String, String)> = self.ids.iter().filter(|i| !i.starts_with('x')).filter_map(|id| self.owner(id).map(|w| (id.clone(), w))).collect();
        let full = USERS.iter().any(|w| self.staked(w).len() > 2);
        let ws = [(30 * c, "stake"), (c, "recv"), (if self.mode == "hooks" { 45 } else { 20 } * n, "flow"), (6 * n, "prep"), (6 * n, "conf"), (8 * n, "cancel"), (if self.mode == "hooks" && !full { 4 } else { 20 }, "unstake"), (f("claims", 14, 5), "claim"), (f("claims", 6, 2), "dur"), (f("active", 16, 4), "thr"),
            (if self.mode == "hooks" { 20 } else { f("power", 6, 2) }, "hook"), (f("hooks", 5, 2), "fail"), (8 * self.ren as u32, "renew"), (3 + 12 * n, "move"), (f("active", 7, 5), "mint"), (f("active", 5, 2), "burn"), (16, "adv"), (f("power", 12, 5), "at"), (f("power", 6, 2), "page"), (f("claims", 3, 0), "bulk")];
        let k = r.wn(&ws);
        // someone for whom the operation makes sense, mostly
        let fit = |w: &str| match k {
            "stake" | "prep" | "move" | "burn" | "flow" => own.iter().any(|x| x.1 == w),
            "unstake" => !self.staked(w).is_empty(),
            "claim" => q(&self.app, &self.a("vote"), &json!({"nft_claims": {"address": w}}))["nft_claims"].as_array().map_or(false, |a| !a.is_empty()),
            _ => true,
        };
        let can: Vec<&str> = USERS.iter().copied().filter(|w| fit(w)).collect();
        let who = if can.is_empty() || r.chance(1, 12) { r.s(&USERS) } else { r.s(&can) };
        let all = ["t1", "t2", "t3", "t4", "t5", "t6", "t7"];
        let of = |w: &str| -> Vec<&str> { own.iter().filter(|x| x.1 == w).map(|x| x.0.as_str()).collect() };
        // an NFT of theirs, mostly
        let some = |r: &mut Rng, v: Vec<&str>| if v.is_empty() || r.chance(1, 15) { r.s(&all) } else { r.s(&v) };
        let few = |r: &mut Rng, v: Vec<&str>| -> Vec<String> { let k = r.wn(&[(1, "0"), (16, "1"), (6, "2"), (2, "3")]).parse::<u64>().unwrap(); (0..k).map(|_| some(r, v.clone())).collect() };
        match k {
            "stake" => { let i = some(r, of(&who)); json!({"o": "stake", "by": who, "id": i, "t": if r.chance(1, 25) { "fake" } else { "nft" }}) }
            "recv" => json!({"o": "recv", "by": who, "id": r.s(&all)}),
            // next step of someone's staking
            "flow" => {
                let ready: Vec<(&String, &String)> = self.prep.iter().filter(|(i, w)| of("vote").contains(&i.as_str()) && !self.staked(w).contains(i)).collect();
                let near: Vec<(&String, &String)> = self.prep.iter().filter(|(i, w)| of(w).contains(&i.as_str())).collect();
                if !ready.is_empty() && r.chance(3, 4) {
                    let w = ready[r.below(ready.len() as u64) as usize].1.clone();
                    let v: Vec<&str> = ready.iter().filter(|x| *x.1 == w).map(|x| x.0.as_str()).collect();
                    let many = r.chance(1, if self.mode == "hooks" { 2 } else { 4 });
                    json!({"o": "conf", "by": w, "ids": if many { v.iter().map(|x| x.to_string()).collect() } else { few(r, v) }})
                }
                else if !near.is_empty() && r.chance(2, 3) { let (i, w) = near[r.below(near.len() as u64) as usize]; json!({"o": "move", "by": w, "to": if r.chance(1, 6) { r.s(&USERS) } else { "vote".into() }, "id": i}) }
                else { let i = some(r, of(&who)); if r.chance(1, 2) { let v = of(&who); let many = !v.is_empty() && r.chance(if self.mode == "hooks" { 4 } else { 1 }, 6); json!({"o": "prep", "by": who, "ids": if many { v.iter().map(|x| x.to_string()).collect() } else { vec![i] }}) } else { json!({"o": "move", "by": who, "to": "vote", "id": i}) } }
            }
            "prep" => { let i = few(r, of(&who)); json!({"o": "prep", "by": who, "ids": i}) }
            "conf" => { let i = few(r, of("vote")); json!({"o": "conf", "by": who, "ids": i}) }
            "cancel" => {
                // what another prepared, by whoever has it now; what is staked, by who prepared it
                let got: Vec<(&String, String)> = self.prep.iter().filter_map(|(i, w)| self.owner(i).filter(|o| o != w && USERS.contains(&o.as_str())).map(|o| (i, o))).collect();
                if !got.is_empty() && r.chance(1, 3) { let (i, o) = got[r.below(got.len() as u64) as usize].clone(); return json!({"o": "cancel", "by": o, "ids": [i], "to": ""}); }
                let mine: Vec<(&String, &String)> = self.prep.iter().filter(|(i, w)| self.staked(w).contains(i)).collect();
                if !mine.is_empty() && r.chance(1, 4) { let (i, w) = mine[r.below(mine.len() as u64) as usize]; return json!({"o": "cancel", "by": w, "ids": [i], "to": ""}); }
                let by = if r.chance(1, 4) { "dao".to_string() } else { who.clone() };
                let v = if r.chance(1, 2) { of("vote") } else { of(&who) };
                let to = if r.chance(1, 2) { "".to_string() } else { r.s(&["alice", "bob", "carol", "dao"]) };
                json!({"o": "cancel", "by": by, "ids": few(r, v), "to": to})
            }
            "unstake" => {
                let w = USERS.iter().copied().find(|w| self.staked(w).len() > if self.mode == "hooks" { 2 } else { 5 }).filter(|_| r.chance(1, 2)).unwrap_or(&who).to_string();
                let s = self.staked(&w);
                if s.len() < 6 && r.chance(1, if self.mode == "hooks" { 2 } else { 5 }) {
                    let mut ids = s.clone();
                    if r.chance(1, 2) { ids.reverse(); }
                    return json!({"o": "unstake", "by": w, "ids": ids});
                }
                let mut ids: Vec<String> = if s.len() > 5 { s[..s.len() - r.below(4) as usize].to_vec() } else { let v: Vec<&str> = s.iter().map(|x| x.as_str()).collect(); few(r, v) };
                if r.chance(2, 3) { let mut seen = vec![]; ids.retain(|x| if seen.contains(x) { false } else { seen.push(x.clone()); true }); }
                json!({"o": "unstake", "by": w, "ids": ids})
            }
            "claim" => json!({"o": "claim", "by": who}),
            "dur" => json!({"o": "dur", "by": if r.chance(9, 10) { "dao".into() } else { who }, "d": gdur(r, 1)}),
            "thr" => { let s = own.len() as u128; let k = USERS.iter().map(|w| self.staked(w).len() as u128).sum(); json!({"o": "thr", "by": if r.chance(8, 9) { "dao".into() } else { who }, "t": if r.chance(1, 3) { near(r, k, s) } else { gthr(r, s) }}) }
            "hook" => {
                let me = who;
                let who = r.s(&HOOKS);
                let by = if r.chance(9, 10) { "dao".to_string() } else { me };
                // not even the listener itself
                if r.chance(1, 10) { json!({"o": "hook", "by": who, "who": who, "add": r.chance(1, 3)}) } else { json!({"o": "hook", "by": by, "who": who, "add": r.chance(2, 3)}) }
            }
            "renew" => json!({"o": "renew", "by": if r.chance(7, 8) { "dao".into() } else { r.s(&["alice", "bob", "boss"]) }, "from": r.s(&["same", "2.3.0", "2.4.2"])}),
            "fail" => json!({"o": "fail", "who": r.s(&HOOKS), "on": r.chance(1, 3)}),
            "move" => { let i = some(r, of(&who)); json!({"o": "move", "by": who, "to": r.wn(&[(2, "alice"), (2, "bob"), (2, "carol"), (5 * n + 1, "vote"), (1, "dao")]), "id": i}) }
            "mint" => json!({"o": "mint", "to": who, "id": r.s(&all)}),
            "burn" => { let i = some(r, of(&who)); json!({"o": "burn", "by": who, "id": i}) }
            "bulk" => {
                let failing = HOOKS.iter().any(|l| mock::is_failing(&self.app, &self.a(l)));
                if failing || self.ids.len() > 80 { return json!({"o": "claim", "by": who}); }
                let k = self.ids.iter().filter(|x| x.starts_with('x')).count() as u64;
                let m = r.range(66, 72);
                json!({"o": "bulk", "by": who, "ids": (k + 1..=k + m).map(|i| format!("x{i:03}")).collect::<Vec<_>>()})
            }
            "at" => json!({"o": "at", "h": past(r, &self.app, &self.seen)}),
            "page" => json!({"o": "page", "who": who, "after": r.s(&["", "t1", "t3", "t33", "x"]), "limit": r.range(0, 4) as i64 - 1}),
            _ => adv(r, &self.app, &mut self.seen),
        }
    }
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let kind = r.wn(&[(if focus == "found" { 4 } else { 1 }, "cw721"), (1, "onft")]);
    let k = r.range(0, 6);
    let k = if r.chance(1, 2) { 5 } else { k };
    let one = if r.chance(if focus == "hooks" { 4 } else { 1 }, 6) { Some(r.s(&USERS)) } else { None };
    let own = map((1..=k).map(|i| (format!("t{i}"), json!(one.clone().unwrap_or_else(|| r.s(&USERS))))));
    let src = if kind == "cw721" { r.wn(&[(8, "existing"), (8, "new"), (3, "factory"), (1, "nodata"), (1, "badmsg"), (1, "notnft"), (1, "nomint")]) } else { "existing" };
    let mode = if ["", "found", "renew"].contains(&focus) { r.s(&["power", "claims", "active"]) } else { focus.to_string() };
    json!({"kind": kind, "src": src, "mode": mode, "renew": focus == "renew", "own": own, "dur": gdur(r, 1), "act": gthr(r, k as u128)})
}
