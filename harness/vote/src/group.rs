//! Voting power from membership: dao-voting-cw4 over cw4-group, dao-voting-cw721-roles over cw721-roles.
use crate::common::*;
use kit::cosmwasm_std::Addr;
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, mock, Rng, Value, World};

pub const SUITE: kit::Suite = kit::Suite { name: "group", cfg, new };
const USERS: [&str; 3] = ["alice", "bob", "carol"];
const ALL: [&str; 5] = ["alice", "bob", "carol", "cbox", "dave"];
const IDS: [&str; 6] = ["r1", "r2", "r3", "r4", "r5", "r6"];

struct W {
    app: App,
    /// the code of the module, and of its older release
    code: [u64; 2],
    /// whether the module is renewed
    ren: bool,
    hooky: bool,
    cw4: bool,
    lab: Labels,
    at: Value,
    page: Value,
    kind: String,
    seen: Vec<i64>,
}
fn w64(v: &Value) -> Value {
    json!(st(v).parse::<u64>().unwrap())
}
fn opt(v: &Value) -> Value {
    if v == "" { Value::Null } else { v.clone() }
}
fn sopt(v: &Value) -> Value {
    json!(v.as_str().unwrap_or(""))
}
fn members(lab: &Labels, v: &Value) -> Value {
    Value::Array(v.as_array().unwrap().iter().map(|x| json!({"addr": lab.addr(x["w"].as_str().unwrap()), "weight": w64(&x["n"])})).collect())
}
fn token(lab: &Labels, x: &Value) -> Value {
    json!({"token_id": x["id"], "owner": lab.addr(x["to"].as_str().unwrap()), "token_uri": opt(&x["uri"]), "extension": {"role": opt(&x["role"]), "weight": w64(&x["n"])}})
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let (kind, src) = (st(&cfg["kind"]), st(&cfg["src"]));
    let mut app = app();
    let mut lab = Labels::default();
    let mock_code = app.store_code(Box::new(mock::Mock));
    let core = core_code(&mut app);
    listeners(&mut app, mock_code, &mut lab);
    let bx = app.instantiate_contract(mock_code, Addr::unchecked("deployer"), &json!({}), &[], "box", None)?;
    lab.add(&bx, "cbox");
    let cw4 = kind == "cw4";
    let mut code = [0; 2];
    let vote = if cw4 {
        let g = app.store_code(Box::new(ContractWrapper::new(cw4_group::contract::execute, cw4_group::contract::instantiate, cw4_group::contract::query)));
        code = renewable(&mut app, || Box::new(ContractWrapper::new(dao_voting_cw4::contract::execute, dao_voting_cw4::contract::instantiate, dao_voting_cw4::contract::query).with_reply(dao_voting_cw4::contract::reply).with_migrate(dao_voting_cw4::contract::migrate)));
        let ms = members(&lab, &cfg["members"]);
        let group = match src.as_str() {
            "new" => json!({"new": {"cw4_group_code_id": g, "initial_members": ms}}),
            "notgroup" => json!({"existing": {"address": bx.to_string()}}),
            _ => json!({"existing": {"address": app.instantiate_contract(g, Addr::unchecked("minter"), &json!({"admin": "minter", "members": ms}), &[], "g", None)?.to_string()}}),
        };
        modinfo(code[0], json!({"group_contract": group}))
    } else {
        let n = app.store_code(Box::new(ContractWrapper::new(cw721_roles::contract::execute, cw721_roles::contract::instantiate, cw721_roles::contract::query)));
        let code = app.store_code(Box::new(ContractWrapper::new(dao_voting_cw721_roles::contract::execute, dao_voting_cw721_roles::contract::instantiate, dao_voting_cw721_roles::contract::query).with_reply(dao_voting_cw721_roles::contract::reply)));
        let toks: Vec<Value> = cfg["nfts"].as_array().unwrap().iter().map(|x| token(&lab, x)).collect();
        let c = if src == "new" { json!({"new": {"code_id": n, "label": "n", "name": "n", "symbol": "N", "initial_nfts": toks}}) } else {
            let c = app.instantiate_contract(n, Addr::unchecked("minter"), &json!({"name": "n", "symbol": "N", "minter": "minter"}), &[], "n", None)?;
            for t in toks { app.execute_contract(Addr::unchecked("minter"), c.clone(), &json!({"mint": t}), &[])?; }
            json!({"existing": {"address": c.to_string()}})
        };
        modinfo(code, json!({"nft_contract": c}))
    };
    dao(&mut app, core, mock_code, vote, &mut lab)?;
    let v = Addr::unchecked(lab.addr("vote"));
    let src = if cw4 { st(&q(&app, &v, &json!({"group_contract": {}}))) } else { st(&q(&app, &v, &json!({"config": {}}))["nft_address"]) };
    lab.add(&Addr::unchecked(src), if cw4 { "group" } else { "nft" });
    let mut w = W { app, code, ren: cfg["renew"] == true, hooky: cfg["hooky"] == true, cw4, lab, at: json!({}), page: json!([]), kind, seen: vec![0] };
    w.at = at(&w.app, &w.lab, &ALL, 0);
    Ok(Box::new(w))
}
impl W {
    fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn call(&mut self, by: &str, msg: &Value) -> (bool, Value) {
        let (by, to) = (self.lab.addr(by), self.a(if self.cw4 { "group" } else { "nft" }));
        exec(&mut self.app, &by, &to, msg, &[])
    }
    fn ext(&mut self, by: &str, msg: Value) -> (bool, Value) {
        self.call(by, &json!({"extension": {"msg": msg}}))
    }
    /// a query about the membership
    fn ask(&self, m: Value) -> Value {
        if self.cw4 { q(&self.app, &self.a("group"), &m) } else { q(&self.app, &self.a("nft"), &json!({"extension": {"msg": m}})) }
    }
    fn list(&self, after: &str, limit: i64) -> Value {
        let after = if after.is_empty() { Value::Null } else { json!(self.lab.addr(after)) };
        self.ask(json!({"list_members": {"start_after": after, "limit": if limit < 0 { Value::Null } else { json!(limit) }}}))["members"].clone()
    }
    fn names(&self, v: &Value) -> Value {
        v.as_array().map(|a| Value::Array(a.iter().map(|m| json!(self.lab.label(m["addr"].as_str().unwrap()))).collect())).unwrap_or(v.clone())
    }
    fn nfts(&self) -> Vec<(String, String)> {
        IDS.iter().filter_map(|id| q(&self.app, &self.a("nft"), &json!({"owner_of": {"token_id": id, "include_expired": null}}))["owner"].as_str().map(|o| (id.to_string(), self.lab.label(o)))).collect()
    }
    fn owner(&self) -> Value {
        if self.cw4 { return json!({"owner": "", "pend": "", "exp": {"k": "never", "v": 0}}); }
        own(&self.app, &self.lab, &self.a("nft"))
    }
    fn gadmin(&self) -> String {
        if !self.cw4 { return "".into(); }
        self.lab.label(self.ask(json!({"admin": {}}))["admin"].as_str().unwrap_or(""))
    }
}
fn diffs(lab: &Labels, m: &Value) -> String {
    let n = |v: &Value| v.as_u64().map(|x| x.to_string()).unwrap_or("-".into());
    m["member_changed_hook"]["diffs"].as_array().map(|a| a.iter().map(|d| format!("{}:{}>{}", lab.label(d["key"].as_str().unwrap_or("?")), n(&d["old"]), n(&d["new"]))).collect::<Vec<_>>().join(",")).unwrap_or("?".into())
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        let id = op["id"].clone();
        match op["o"].as_str().unwrap() {
            "upd" => {
                let rm: Vec<String> = strs(&op["rm"]).iter().map(|x| self.lab.addr(x)).collect();
                let m = json!({"update_members": {"add": members(&self.lab, &op["add"]), "remove": rm}});
                self.call(&by, &m)
            }
            "gadm" => { let to = opt(&op["to"]).as_str().map(|x| self.lab.addr(x)); self.call(&by, &json!({"update_admin": {"admin": to}})) }
            "mint" => { let m = json!({"mint": token(&self.lab, op)}); self.call(&by, &m) }
            "burn" => self.call(&by, &json!({"burn": {"token_id": id}})),
            "move" => { let m = json!({"transfer_nft": {"recipient": self.lab.addr(op["to"].as_str().unwrap()), "token_id": id}}); self.call(&by, &m) }
            "send" => { let m = json!({"send_nft": {"contract": self.lab.addr("cbox"), "token_id": id, "msg": b(&json!({}))}}); self.call(&by, &m) }
            "weigh" => self.ext(&by, json!({"update_token_weight": {"token_id": id, "weight": w64(&op["n"])}})),
            "role" => self.ext(&by, json!({"update_token_role": {"token_id": id, "role": opt(&op["v"])}})),
            "uri" => self.ext(&by, json!({"update_token_uri": {"token_id": id, "token_uri": opt(&op["v"])}})),
            "hook" => { let k = if op["add"] == true { "add_hook" } else { "remove_hook" }; let m = json!({k: {"addr": self.lab.addr(op["who"].as_str().unwrap())}}); self.ext(&by, m) }
            "offer" | "accept" | "renounce" => { let m = own_msg(&self.lab, op); self.call(&by, &json!({"update_ownership": m})) }
            "renew" => { let (c, d) = (self.a("vote"), self.lab.addr("dao")); let by = self.lab.addr(&by); renew(&mut self.app, self.code, &c, &d, &by, op["from"].as_str().unwrap()) }
            "fail" => { let (to, m) = (self.a(op["who"].as_str().unwrap()), json!({"set_fail": op["on"]})); exec(&mut self.app, "deployer", &to, &m, &[]) }
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            "at" => { self.at = at(&self.app, &self.lab, &ALL, op["h"].as_i64().unwrap()); (true, json!({})) }
            "page" => { let v = self.list(op["after"].as_str().unwrap(), op["limit"].as_i64().unwrap()); self.page = self.names(&v); (true, json!({})) }
            x => panic!("op {x}"),
        }
    }
    fn obs(&mut self) -> Value {
        let (p, t) = powers(&self.app, &self.lab, &ALL, None);
        let h = self.app.block_info().height;
        let (cp, ct) = powers(&self.app, &self.lab, &ALL, Some(h));
        let mut o = json!({"now": clock(&self.app), "power": p, "total": t, "at": self.at.clone(), "cur": {"p": cp, "t": ct}, "page": self.page.clone()});
        // the membership, walked by pages of two
        let (mut m, mut after) = (vec![], "".to_string());
        loop {
            let v = self.list(&after, 2);
            let a = v.as_array().cloned().unwrap_or_default();
            if a.is_empty() || m.len() > 20 { break; }
            for x in &a { m.push((self.lab.label(x["addr"].as_str().unwrap()), json!(x["weight"].to_string()))); }
            after = m.last().unwrap().0.clone();
        }
        o["mem"] = map(m);
        o["list"] = self.names(&self.list("", -1));
        o["gadmin"] = json!(self.gadmin());
        o["own"] = self.owner();
        let n = if self.cw4 { vec![] } else { self.nfts() };
        let a = self.a("nft");
        o["nft"] = map(n.iter().map(|(id, w)| {
            let i = q(&self.app, &a, &json!({"nft_info": {"token_id": id}}));
            (id.clone(), json!({"to": w, "n": i["extension"]["weight"].to_string(), "role": sopt(&i["extension"]["role"]), "uri": sopt(&i["token_uri"])}))
        }));
        o["held"] = map(ALL.iter().map(|w| (w.to_string(), if self.cw4 { json!([]) } else { q(&self.app, &a, &json!({"tokens": {"owner": self.lab.addr(w), "start_after": null, "limit": null}}))["tokens"].clone() })));
        o["num"] = if self.cw4 { json!(0) } else { q(&self.app, &a, &json!({"num_tokens": {}}))["count"].clone() };
        o["hooks"] = if self.cw4 { json!([]) } else { labels(&self.lab, &self.ask(json!({"hooks": {}}))["hooks"]) };
        o["ord"] = order(&self.app, &self.lab);
        o["log"] = logs(&self.app, &self.lab, |m| diffs(&self.lab, m));
        let l = mock::mock_log(&self.app, &self.a("cbox"));
        let last = l.last().map(|e| format!("{}:{}", self.lab.label(e["msg"]["receive_nft"]["sender"].as_str().unwrap_or("?")), e["msg"]["receive_nft"]["token_id"].as_str().unwrap_or("?"))).unwrap_or_default();
        o["cbox"] = json!({"n": l.len(), "last": last});
        o["made"] = json!({"vote": admin_of(&self.app, &self.lab, "vote"), "group": admin_of(&self.app, &self.lab, if self.cw4 { "group" } else { "nft" })});
        o["daoq"] = json!(self.lab.label(q(&self.app, &self.a("vote"), &json!({"dao": {}})).as_str().unwrap_or("?")));
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let (c, n) = (self.cw4 as u32, (!self.cw4) as u32);
        let ws = [(40 * c, "upd"), (2 * c, "gadm"), (16 * n, "mint"), (10 * n, "burn"), (12 * n, "move"), (4 * n, "send"), (14 * n, "weigh"), (3 * n, "role"), (2 * n, "uri"), (if self.hooky { 20 } else { 5 } * n, "hook"), (if self.hooky { 5 } else { 2 } * n, "fail"), (8 * self.ren as u32, "renew"),
            (4 * n, "offer"), (5 * n, "accept"), (1 * n, "renounce"), (18, "adv"), (12, "at"), (5, "page")];
        let k = r.wn(&ws);
        let o = self.owner();
        let who = r.s(&["alice", "bob", "carol", "dao", "minter", "vote"]);
        let by = if self.cw4 { self.gadmin() } else { st(&o["owner"]) };
        let by = if by.is_empty() || r.chance(1, 12) { who.clone() } else { by };
        let has = if self.cw4 { vec![] } else { self.nfts() };
        let id = if has.is_empty() || r.chance(1, 12) { r.s(&IDS) } else { r.pick(&has).0.clone() };
        match k {
            "upd" => {
                let add: Vec<Value> = (0..r.below(4)).map(|_| { let w = r.s(&ALL); json!({"w": w, "n": weight(r)}) }).collect();
                let rm = if r.chance(1, 2) { r.list(&ALL, 2) } else { vec![] };
                json!({"o": "upd", "by": by, "add": add, "rm": rm})
            }
            "gadm" => json!({"o": "gadm", "by": by, "to": r.s(&["dao", "minter", "minter", "dao", "alice", ""])}),
            "mint" => { let id = if r.chance(5, 6) { IDS.iter().find(|i| !has.iter().any(|x| x.0 == **i)).map(|x| x.to_string()).unwrap_or(id) } else { id };
                json!({"o": "mint", "by": by, "id": id, "to": r.s(&ALL), "n": weight(r), "role": r.s(&["", "a", "b"]), "uri": r.s(&["", "u"])}) }
            "burn" => json!({"o": "burn", "by": by, "id": id}),
            "move" => json!({"o": "move", "by": by, "id": id, "to": r.s(&ALL)}),
            "send" => json!({"o": "send", "by": by, "id": id}),
            "weigh" => json!({"o": "weigh", "by": by, "id": id, "n": weight(r)}),
            "role" | "uri" => json!({"o": k, "by": by, "id": id, "v": r.s(&["", "a", "c"])}),
            "hook" => {
                let who = r.s(&HOOKS);
                // not even the listener itself
                if r.chance(1, 10) { json!({"o": "hook", "by": who, "who": who, "add": r.chance(1, 3)}) } else { json!({"o": "hook", "by": by, "who": who, "add": r.chance(2, 3)}) }
            }
            "renew" => json!({"o": "renew", "by": if r.chance(7, 8) { "dao".into() } else { r.s(&["alice", "bob", "boss"]) }, "from": r.s(&["same", "2.3.0", "2.4.2"])}),
            "fail" => json!({"o": "fail", "who": r.s(&["l1", "l2", "cbox"]), "on": r.chance(1, 3)}),
            "offer" | "accept" | "renounce" => gown(r, k, &o, &who, &["dao", "dao", "minter", "alice"], &clock(&self.app)),
            "at" => json!({"o": "at", "h": past(r, &self.app, &self.seen)}),
            "page" => json!({"o": "page", "after": r.s(&["", "alice", "bob", "cbox", "dave"]), "limit": r.range(0, 5) as i64 - 1}),
            _ => adv(r, &self.app, &mut self.seen),
        }
    }
}
fn weight(r: &mut Rng) -> String {
    match r.below(12) {
        0 | 1 => "0".into(),
        2 => u64::MAX.to_string(),
        3 => (r.u128() as u64).to_string(),
        4 => (r.u128() as u64 / 8).to_string(),
        _ => r.below(6).to_string(),
    }
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let kind = if focus == "renew" { "cw4".into() } else if focus == "hooks" { "roles".into() } else if focus.is_empty() || focus == "found" { r.s(&["cw4", "roles"]) } else { focus.to_string() };
    let src = if kind == "cw4" { r.wn(&[(10, "new"), (10, "existing"), (1, "notgroup")]) } else { r.wn(&[(1, "new"), (1, "existing")]) };
    let k = r.below(5);
    let odd = r.chance(1, if focus == "found" { 4 } else { 12 });
    let mut left: Vec<&str> = ALL.iter().copied().filter(|x| *x != "cbox").collect();
    let members: Vec<Value> = (0..if kind == "cw4" { k } else { 0 }).map(|_| {
        let n = weight(r);
        if odd { let w = r.s(&["alice", "alice", "bob", "x", "ALICE"]); json!({"w": w, "n": n}) }
        else { let i = r.below(left.len() as u64) as usize; json!({"w": left.remove(i), "n": n}) }
    }).collect();
    let mut ids: Vec<&str> = IDS.to_vec();
    let nfts: Vec<Value> = (0..if kind == "roles" { k } else { 0 }).map(|_| {
        let (to, n, role) = (r.s(&USERS), weight(r), r.s(&["", "a"]));
        let id = if odd { r.s(&["r1", "r2", "r3"]) } else { ids.remove(0).to_string() };
        json!({"id": id, "to": to, "n": n, "role": role, "uri": r.s(&["", "u"])})
    }).collect();
    json!({"kind": kind, "hooky": focus == "hooks", "renew": focus == "renew", "src": src, "members": members, "nfts": nfts})
}
