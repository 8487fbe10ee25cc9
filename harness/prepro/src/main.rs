//! Pre-propose modules (single, multiple, approval, approver) with real proposal
//! modules under real DAOs; voting power is set by the driver and one voter
//! ("alice") decides every proposal.
use kit::cosmwasm_std::{Addr, BankMsg, Binary, Coin, CosmosMsg, WasmMsg};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{anyhow, env::*, json, mock, Rng, Value, World};
mod up;

const PEOPLE: [&str; 5] = ["alice", "bob", "carol", "dave", "zoe"];
const NATIVE: [&str; 2] = ["ua1", "ub1"];
const TOKENS: [&str; 2] = ["tA", "tB"];
const WALLET: u128 = 12;

struct W {
    app: App,
    kind: String,
    lab: Labels,
    tab: Vec<(Value, Value)>,
    page: Value,
    aproposed: u64,
    /// still on the old code, which knows only whether everybody may submit
    old: bool,
}
fn b(v: &Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
fn modinfo(code: u64, msg: Value) -> Value {
    json!({"code_id": code, "msg": b(&msg), "admin": {"core_module": {}}, "funds": [], "label": "m"})
}
fn gov(cfg: &Value, multi: bool, pp: Value, veto: &Value) -> Value {
    let n = veto.as_u64().unwrap();
    let veto = if n == 0 { Value::Null } else {
        json!({"timelock_duration": {"height": n}, "vetoer": "vera", "early_execute": false, "veto_before_passed": true})
    };
    let mut m = json!({"max_voting_period": {"height": cfg["period"]}, "min_voting_period": null, "only_members_execute": false,
        "allow_revoting": false, "pre_propose_info": {"module_may_propose": {"info": pp}},
        "close_proposal_on_execution_failure": cfg["close"], "veto": veto});
    if multi {
        m["voting_strategy"] = json!({"single_choice": {"quorum": {"percent": "0.5"}}});
    } else {
        m["threshold"] = json!({"absolute_count": {"threshold": "60"}});
    }
    m
}
fn core(app: &mut App, code: u64, vote: Value, module: Value) -> anyhow::Result<Addr> {
    app.instantiate_contract(code, Addr::unchecked("deployer"), &json!({"admin": null, "name": "dao", "description": "d", "image_url": null,
        "automatically_add_cw20s": false, "automatically_add_cw721s": false, "voting_module_instantiate_info": vote,
        "proposal_modules_instantiate_info": [module], "initial_items": null, "dao_uri": null}), &[], "dao", None)
}
fn mods(app: &App, core: &Addr) -> Vec<String> {
    q(app, core, &json!({"active_proposal_modules": {}})).as_array().unwrap().iter().map(|m| st(&m["address"])).collect()
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    Ok(Box::new(build(cfg)?.0))
}
/// the world, and the present code of its module
fn build(cfg: &Value) -> anyhow::Result<(W, u64)> {
    let kind = st(&cfg["kind"]);
    let mut app = app();
    let mut lab = Labels::default();
    let mock_code = app.store_code(Box::new(mock::Mock));
    let vote_code = app.store_code(Box::new(mock::MockVote));
    let cw20 = app.store_code(cw20_contract());
    macro_rules! code {
        ($m:ident) => { app.store_code(Box::new(ContractWrapper::new($m::contract::execute, $m::contract::instantiate, $m::contract::query))) };
        ($m:ident, reply) => { app.store_code(Box::new(ContractWrapper::new($m::contract::execute, $m::contract::instantiate, $m::contract::query).with_reply($m::contract::reply))) };
    }
    let core_code = code!(dao_dao_core, reply);
    let single = code!(dao_proposal_single, reply);
    let multiple = code!(dao_proposal_multiple, reply);
    macro_rules! next {
        ($m:ident) => { app.store_code(Box::new(ContractWrapper::new($m::contract::execute, $m::contract::instantiate, $m::contract::query).with_migrate($m::contract::migrate))) };
    }
    let old = cfg["up"] == true;
    let (pps, ppm, ppa, ppr) = (next!(dao_pre_propose_single), next!(dao_pre_propose_multiple), next!(dao_pre_propose_approval_single), code!(dao_pre_propose_approver));
    let now = [pps, ppm, ppa];
    let (pps, ppm, ppa) = if old { (code!(dao_pre_propose_single_v241), code!(dao_pre_propose_multiple_v241), code!(dao_pre_propose_approval_single_v241)) } else { (pps, ppm, ppa) };
    for t in TOKENS {
        let v: Vec<(&str, u128)> = PEOPLE.iter().map(|p| (*p, WALLET)).collect();
        let a = new_cw20(&mut app, cw20, &v);
        lab.add(&a, t);
    }
    for d in NATIVE {
        for p in PEOPLE { mint(&mut app, p, d, WALLET); }
    }
    for l in ["l1", "l2"] {
        let a = app.instantiate_contract(mock_code, Addr::unchecked("deployer"), &json!({}), &[], l, None)?;
        lab.add(&a, l);
    }
    let mut adao = None;
    if kind == "approver" {
        let a = core(&mut app, core_code, modinfo(vote_code, json!({"powers": {"alice": "100"}})), modinfo(mock_code, json!({})))?;
        lab.add(&a, "adao");
        adao = Some(a);
    }
    let mut w = W { app, kind: kind.clone(), lab, tab: vec![], page: json!([]), aproposed: 0, old };
    let mut ppmsg = json!({"deposit_info": w.dep(&cfg["dep"]), "submission_policy": pol(&cfg["pol"]), "extension": {}});
    let code = match kind.as_str() { "single" => pps, "multiple" => ppm, _ => ppa };
    if old { ppmsg = json!({"deposit_info": ppmsg["deposit_info"], "open_proposal_submission": cfg["pol"]["k"] == "anyone", "extension": {}}); }
    if code == ppa {
        ppmsg["extension"] = json!({"approver": if adao.is_some() { w.lab.addr("adao") } else { "boss".into() }});
    }
    let multi = kind == "multiple";
    let vote = json!({"powers": cfg["powers"], "denom": if cfg["vmn"] == true { json!(NATIVE[1]) } else { Value::Null },
        "token": if cfg["vmt"] == true { json!(w.lab.addr("tB")) } else { Value::Null }});
    let dao = core(&mut w.app, core_code, modinfo(vote_code, vote), modinfo(if multi { multiple } else { single }, gov(cfg, multi, modinfo(code, ppmsg), &cfg["veto"])))?;
    w.lab.add(&dao, "dao");
    let m = Addr::unchecked(mods(&w.app, &dao)[0].clone());
    w.lab.add(&m, "mod");
    let p = q(&w.app, &m, &json!({"proposal_creation_policy": {}}));
    w.lab.add(&Addr::unchecked(st(&p["module"]["addr"])), "pp");
    let v = q(&w.app, &dao, &json!({"voting_module": {}}));
    w.lab.add(&Addr::unchecked(st(&v)), "vote");
    mint(&mut w.app, dao.as_str(), NATIVE[0], u(&cfg["fund"]).u128());
    if let Some(a) = adao {
        let old = mods(&w.app, &a)[0].clone();
        let info = modinfo(single, gov(cfg, false, modinfo(ppr, json!({"pre_propose_approval_contract": w.lab.addr("pp")})), &cfg["aveto"]));
        w.app.execute_contract(a.clone(), a.clone(), &json!({"update_proposal_modules": {"to_add": [info], "to_disable": [old]}}), &[])?;
        let m = Addr::unchecked(mods(&w.app, &a)[0].clone());
        w.lab.add(&m, "amod");
        let p = q(&w.app, &m, &json!({"proposal_creation_policy": {}}));
        w.lab.add(&Addr::unchecked(st(&p["module"]["addr"])), "app");
    }
    Ok((w, now[match kind.as_str() { "single" => 0, "multiple" => 1, _ => 2 }]))
}
fn pol(v: &Value) -> Value {
    match st(&v["k"]).as_str() {
        "keep" => Value::Null,
        "anyone" => json!({"anyone": {"denylist": v["dl"]}}),
        _ => json!({"specific": {"dao_members": v["mem"], "allowlist": v["al"], "denylist": v["dl"]}}),
    }
}
fn opt(v: &Value) -> Value {
    if v == &json!(["*"]) { Value::Null } else { v.clone() }
}
impl W {
    fn a(&self, l: &str) -> Addr {
        Addr::unchecked(self.lab.addr(l))
    }
    fn denom(&self, k: &str, d: &str) -> Value {
        if k == "native" { json!({"native": d}) } else { json!({"cw20": self.lab.addr(d)}) }
    }
    fn dep(&self, v: &Value) -> Value {
        let k = st(&v["k"]);
        let token = match k.as_str() {
            "none" => return Value::Null,
            "vmn" => json!({"voting_module_token": {"token_type": "native"}}),
            "vmc" => json!({"voting_module_token": {"token_type": "cw20"}}),
            k => json!({"token": {"denom": self.denom(k, v["d"].as_str().unwrap())}}),
        };
        json!({"denom": token, "amount": v["a"], "refund_policy": v["r"]})
    }
    fn jdep(&self, v: &Value) -> Value {
        if v.is_null() { return json!({"d": "", "a": "0", "r": ""}); }
        let d = v["denom"]["native"].as_str().map(|x| x.to_string()).unwrap_or_else(|| self.lab.label(v["denom"]["cw20"].as_str().unwrap_or("?")));
        json!({"d": d, "a": v["amount"], "r": v["refund_policy"]})
    }
    fn jpol(&self, v: &Value) -> Value {
        if let Some(x) = v.get("anyone") { return json!({"k": "anyone", "mem": false, "al": [], "dl": x["denylist"]}); }
        let x = &v["specific"];
        json!({"k": "specific", "mem": x["dao_members"], "al": x["allowlist"], "dl": x["denylist"]})
    }
    fn msgs(&self, v: &Value) -> Vec<CosmosMsg> {
        v.as_array().unwrap().iter().map(|m| match m["k"].as_str().unwrap() {
            "pay" => BankMsg::Send { to_address: "payee".into(), amount: vec![Coin { denom: NATIVE[0].into(), amount: u(&m["a"]) }] }.into(),
            "withdraw" => WasmMsg::Execute { contract_addr: self.lab.addr("pp"), msg: b(&self.withdraw(&m["d"])), funds: vec![] }.into(),
            _ => WasmMsg::Execute { contract_addr: "nosuchcontract".into(), msg: b(&json!({})), funds: vec![] }.into(),
        }).collect()
    }
    fn withdraw(&self, d: &Value) -> Value {
        let d = match st(&d["k"]).as_str() { "none" => Value::Null, k => self.denom(k, d["d"].as_str().unwrap()) };
        json!({"withdraw": {"denom": d}})
    }
    fn multi(&self) -> bool {
        self.kind == "multiple"
    }
    fn approval(&self) -> bool {
        self.kind == "approval" || self.kind == "approver"
    }
    fn call(&mut self, by: &str, to: &str, msg: &Value, f: &[Coin]) -> (bool, Value) {
        let (by, to) = (self.lab.addr(by), self.a(to));
        exec(&mut self.app, &by, &to, msg, f)
    }
    fn ballot(&self, m: &str, v: &str) -> Value {
        if m == "m" && self.multi() { json!({"option_id": if v == "yes" { 0 } else { 2 }}) } else { json!(v) }
    }
    /// the message creating a proposal, as the modules take it
    fn propose(&mut self, op: &Value, proposer: Option<Value>) -> Value {
        let t = st(&op["title"]);
        let msgs = self.msgs(&op["msgs"]);
        self.tab.push((mock::msg_json(&msgs), op["msgs"].clone()));
        let v = st(&op["vote"]);
        let vote = if v == "none" { Value::Null } else { json!({"vote": self.ballot("m", &v), "rationale": null}) };
        let mut m = json!({"title": t, "description": format!("{t}!"), "vote": vote});
        if self.multi() {
            m["choices"] = json!({"options": [{"title": "do", "description": "it", "msgs": msgs}, {"title": "zz", "description": "other", "msgs": []}]});
        } else {
            m["msgs"] = json!(msgs);
        }
        if let Some(p) = proposer { m["proposer"] = p; }
        json!({"propose": m})
    }
    fn show_msgs(&self, raw: &Value) -> Value {
        if raw == &json!([]) { return json!([]); }
        self.tab.iter().rev().find(|(a, _)| a == raw).map(|(_, x)| x.clone()).unwrap_or(raw.clone())
    }
    fn prop(&self, m: &str, id: u64) -> Value {
        let v = q(&self.app, &self.a(m), &json!({"proposal": {"proposal_id": id}}));
        let p = &v["proposal"];
        if p.is_null() { return v; }
        let s = &p["status"];
        let stt = s.as_str().map(|x| x.to_string()).unwrap_or_else(|| s.as_object().unwrap().keys().next().unwrap().clone());
        let msgs = if m == "mod" && self.multi() { &p["choices"][0]["msgs"] } else { &p["msgs"] };
        json!({"st": stt, "title": p["title"], "by": self.lab.label(p["proposer"].as_str().unwrap()), "msgs": self.show_msgs(msgs),
            "desc": p["description"].as_str() == Some(&format!("{}!", p["title"].as_str().unwrap()))})
    }
    fn next(&self, m: &str) -> u64 {
        q(&self.app, &self.a(m), &json!({"next_proposal_id": {}})).as_u64().unwrap_or(0)
    }
    fn ext(&self, c: &str, m: Value) -> Value {
        q(&self.app, &self.a(c), &json!({"query_extension": {"msg": m}}))
    }
    fn bal(&self, d: &str, who: &str) -> String {
        if d.starts_with('t') { cw20_bal(&self.app, &self.a(d), &self.lab.addr(who)) } else { bal(&self.app, &self.a(who), d) }
    }
    fn policy(&self, m: &str) -> Value {
        let p = q(&self.app, &self.a(m), &json!({"proposal_creation_policy": {}}));
        match p["module"]["addr"].as_str() { Some(a) => json!(self.lab.label(a)), None if p.get("anyone").is_some() => json!("anyone"), None => p }
    }
    fn pend(&self, reverse: bool) -> Value {
        let k = if reverse { "reverse_pending_proposals" } else { "pending_proposals" };
        self.ext("pp", json!({k: {}}))
    }
    fn ids(v: &Value) -> Value {
        v.as_array().map(|a| Value::Array(a.iter().map(|x| x["approval_id"].clone()).collect())).unwrap_or(v.clone())
    }
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = op["by"].as_str().unwrap_or("").to_string();
        let md = if op["m"] == "a" { "amod" } else { "mod" };
        match op["o"].as_str().unwrap() {
            "propose" => {
                let m = self.propose(op, None);
                self.call(&by, "pp", &json!({"propose": {"msg": m}}), &funds(&op["funds"]))
            }
            "dprop" => {
                let p = if op["named"] == true { json!(self.lab.addr(&by)) } else { Value::Null };
                let m = self.propose(op, Some(p));
                self.call(&by, "mod", &m, &[])
            }
            "aprop" => self.call(&by, "app", &json!({"propose": {"msg": {"propose": {"title": op["title"], "description": "x", "approval_id": op["id"]}}}}), &[]),
            "vote" => { let v = self.ballot(op["m"].as_str().unwrap(), op["v"].as_str().unwrap()); self.call(&by, md, &json!({"vote": {"proposal_id": op["id"], "vote": v}}), &[]) }
            "exec" => self.call(&by, md, &json!({"execute": {"proposal_id": op["id"]}}), &[]),
            "close" => self.call(&by, md, &json!({"close": {"proposal_id": op["id"]}}), &[]),
            "veto" => self.call(&by, md, &json!({"veto": {"proposal_id": op["id"]}}), &[]),
            "cfg" if self.old => { let m = json!({"update_config": {"deposit_info": self.dep(&op["dep"]), "open_proposal_submission": op["pol"]["k"] == "anyone"}}); self.call(&by, "pp", &m, &[]) }
            "cfg" => { let m = json!({"update_config": {"deposit_info": self.dep(&op["dep"]), "submission_policy": pol(&op["pol"])}}); self.call(&by, op["c"].as_str().unwrap(), &m, &[]) }
            "pol" => {
                let mem = match op["mem"].as_str().unwrap() { "keep" => Value::Null, x => json!(x == "y") };
                let m = json!({"update_submission_policy": {"denylist_add": opt(&op["dadd"]), "denylist_remove": opt(&op["drm"]), "set_dao_members": mem,
                    "allowlist_add": opt(&op["aadd"]), "allowlist_remove": opt(&op["arm"])}});
                self.call(&by, op["c"].as_str().unwrap(), &m, &[])
            }
            "withdraw" => { let m = self.withdraw(&op["d"]); self.call(&by, op["c"].as_str().unwrap(), &m, &[]) }
            "hook" => {
                let k = if op["add"] == true { "add_proposal_submitted_hook" } else { "remove_proposal_submitted_hook" };
                let m = json!({k: {"address": self.lab.addr(op["who"].as_str().unwrap())}});
                self.call(&by, op["c"].as_str().unwrap(), &m, &[])
            }
            "done" => self.call(&by, op["c"].as_str().unwrap(), &json!({"proposal_completed_hook": {"proposal_id": op["id"], "new_status": op["st"]}}), &[]),
            "noop" => self.call(&by, "pp", &json!({"extension": {"msg": {}}}), &[]),
            "approve" | "reject" => self.call(&by, "pp", &json!({"extension": {"msg": {op["o"].as_str().unwrap(): {"id": op["id"]}}}}), &[]),
            "approver" => { let m = json!({"extension": {"msg": {"update_approver": {"address": self.lab.addr(op["who"].as_str().unwrap())}}}}); self.call(&by, "pp", &m, &[]) }
            "reset" => self.call(&by, "app", &json!({"extension": {"msg": {"reset_approver": {}}}}), &[]),
            "allow" => {
                let m = json!({"increase_allowance": {"spender": self.lab.addr("pp"), "amount": op["a"], "expires": null}});
                self.call(&by, op["d"].as_str().unwrap(), &m, &[])
            }
            "gift" => {
                let d = st(&op["d"]);
                let pp = self.lab.addr("pp");
                if d.starts_with('t') { self.call(&by, &d, &json!({"transfer": {"recipient": pp, "amount": op["a"]}}), &[]) }
                else { res(self.app.send_tokens(Addr::unchecked(&by), Addr::unchecked(pp), &[Coin { denom: d, amount: u(&op["a"]) }])) }
            }
            "power" => self.call("deployer", "vote", &json!({"set": {"who": op["who"], "p": op["p"]}}), &[]),
            "fail" => self.call("deployer", op["who"].as_str().unwrap(), &json!({"set_fail": op["on"]}), &[]),
            "adv" => { advance(&mut self.app, op); (true, json!({})) }
            "page" => {
                let rev = op["rev"] == true;
                let k = format!("{}{}_proposals", if rev { "reverse_" } else { "" }, op["list"].as_str().unwrap());
                let mut a = json!({});
                if op["after"] != 0 { a[if rev { "start_before" } else { "start_after" }] = op["after"].clone(); }
                if op["limit"] != -1 { a["limit"] = op["limit"].clone(); }
                let v = self.ext("pp", json!({k: a}));
                self.page = Self::ids(&v);
                (true, json!({}))
            }
            o => panic!("op {o}"),
        }
    }
    fn obs(&mut self) -> Value {
        let c = q(&self.app, &self.a("pp"), &json!({"config": {}}));
        let hk = |w: &W, c: &str| -> Value {
            let v = q(&w.app, &w.a(c), &json!({"proposal_submitted_hooks": {}}));
            v["hooks"].as_array().map(|a| Value::Array(a.iter().map(|x| json!(w.lab.label(x.as_str().unwrap()))).collect())).unwrap_or(v)
        };
        let mut o = json!({"dep": self.jdep(&c["deposit_info"]), "pol": self.jpol(&c["submission_policy"]), "hooks": hk(self, "pp"),
            "mpol": self.policy("mod"), "next": self.next("mod"), "page": self.page.clone()});
        o["who"] = json!([self.lab.label(q(&self.app, &self.a("pp"), &json!({"dao": {}})).as_str().unwrap_or("?")),
            self.lab.label(q(&self.app, &self.a("pp"), &json!({"proposal_module": {}})).as_str().unwrap_or("?"))]);
        o["can"] = map(PEOPLE.iter().map(|p| (p.to_string(), q(&self.app, &self.a("pp"), &json!({"can_propose": {"address": p}})))));
        let mut whos: Vec<&str> = PEOPLE.to_vec();
        whos.extend(["pp", "dao", "payee"]);
        for d in NATIVE.iter().chain(TOKENS.iter()) {
            o[format!("bal_{d}")] = map(whos.iter().map(|p| (p.to_string(), json!(self.bal(d, p)))));
        }
        for t in TOKENS {
            let pp = self.lab.addr("pp");
            o[format!("allow_{t}")] = map(PEOPLE.iter().map(|p| (p.to_string(),
                q(&self.app, &self.a(t), &json!({"allowance": {"owner": p, "spender": pp}}))["allowance"].clone())));
        }
        o["ord"] = mock::order(&self.app, ["l1", "l2"].iter().map(|l| (*l, self.a(l).to_string())));
        o["log"] = map(["l1", "l2"].iter().map(|l| {
            let v = mock::mock_log(&self.app, &self.a(l));
            let last = v.last().map(|e| {
                let (m, from) = (&e["msg"], if self.lab.label(e["from"].as_str().unwrap()) == "pp" { "" } else { "?" });
                let x = &m["propose"];
                if x.get("msg").is_some() { format!("{from}a:{}:{}", x["msg"]["propose"]["title"].as_str().unwrap_or("?"), x["msg"]["propose"]["approval_id"]) }
                else { format!("{from}p:{}:{}", x["title"].as_str().unwrap_or("?"), x["proposer"].as_str().unwrap_or("?")) }
            }).unwrap_or_default();
            (l.to_string(), json!({"n": v.len(), "last": last}))
        }));
        for id in 1..self.next("mod") {
            o[format!("p{id}")] = self.prop("mod", id);
            let d = q(&self.app, &self.a("pp"), &json!({"deposit_info": {"proposal_id": id}}));
            o[format!("d{id}")] = if d.get("err").is_some() { json!({"by": "", "dep": self.jdep(&Value::Null)}) }
                else { json!({"by": self.lab.label(d["proposer"].as_str().unwrap()), "dep": self.jdep(&d["deposit_info"])}) };
            if self.approval() {
                o[format!("c{id}")] = json!(self.ext("pp", json!({"completed_proposal_id_for_created_proposal_id": {"id": id}})).as_u64().unwrap_or(0));
            }
        }
        if self.approval() {
            o["approver"] = json!(self.lab.label(self.ext("pp", json!({"approver": {}})).as_str().unwrap_or("?")));
            let p = Self::ids(&self.pend(false));
            o["rpend"] = Self::ids(&self.pend(true));
            let cm = Self::ids(&self.ext("pp", json!({"completed_proposals": {}})));
            let mx = [&p, &cm].iter().flat_map(|x| x.as_array().cloned().unwrap_or_default()).filter_map(|x| x.as_u64()).max().unwrap_or(0);
            o["pend"] = p;
            o["comp"] = cm;
            o["rcomp"] = Self::ids(&self.ext("pp", json!({"reverse_completed_proposals": {}})));
            o["seq"] = json!(mx);
            for id in 1..=mx {
                let x = self.ext("pp", json!({"proposal": {"id": id}}));
                let is = self.ext("pp", json!({"is_pending": {"id": id}}));
                let one = [self.ext("pp", json!({"pending_proposal": {"id": id}})), self.ext("pp", json!({"completed_proposal": {"id": id}}))];
                let s = &x["status"];
                o[format!("a{id}")] = json!({"st": s.as_object().map(|o| o.keys().next().unwrap().clone()).unwrap_or(s.to_string()),
                    "made": s["approved"]["created_proposal_id"].as_u64().unwrap_or(0), "by": x["proposer"], "title": x["msg"]["title"],
                    "for": x["msg"]["proposer"], "msgs": self.show_msgs(&x["msg"]["msgs"]), "vote": x["msg"]["vote"]["vote"].as_str().unwrap_or("none"),
                    "dep": self.jdep(&x["deposit"]), "pending": is, "in": [one[0] == x, one[1] == x]});
            }
        }
        if self.kind == "approver" {
            o["apol"] = self.policy("amod");
            let n = self.next("amod");
            o["anext"] = json!(n);
            for id in 1..n {
                o[format!("q{id}")] = self.prop("amod", id);
                o[format!("k{id}")] = self.ext("app", json!({"pre_propose_approval_id_for_approver_proposal_id": {"id": id}}));
            }
            let mx = o["seq"].as_u64().unwrap();
            for id in 1..=mx {
                o[format!("j{id}")] = json!(self.ext("app", json!({"approver_proposal_id_for_pre_propose_approval_id": {"id": id}})).as_u64().unwrap_or(0));
            }
            o["acan"] = json!(["pp", "alice", "adao"].iter().map(|w| q(&self.app, &self.a("app"), &json!({"can_propose": {"address": self.lab.addr(w)}}))).collect::<Vec<_>>());
            o["ahooks"] = hk(self, "app");
        }
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let n = self.next("mod");
        let ps: Vec<(u64, Value)> = (1..n).map(|i| (i, self.prop("mod", i))).collect();
        let qs: Vec<(u64, Value)> = if self.kind == "approver" { (1..self.next("amod")).map(|i| (i, self.prop("amod", i))).collect() } else { vec![] };
        let pend: Vec<u64> = if self.approval() { Self::ids(&self.pend(false)).as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default() } else { vec![] };
        let with = |v: &Vec<(u64, Value)>, s: &str| v.iter().filter(|(_, p)| p["st"] == s).map(|(i, _)| *i).collect::<Vec<u64>>();
        let full = ps.len() + pend.len() > 11;
        let appr = self.approval() as u32;
        let ar = (self.kind == "approver") as u32;
        // an approver DAO that leaves and comes back puts the two numberings out of step
        let away = ar == 1 && self.lab.label(self.ext("pp", json!({"approver": {}})).as_str().unwrap_or("?")) != "app";
        let ws = [(if full { 0 } else { 30 }, "propose"), (16, "vote"), (14, "exec"), (8, "close"), (6, "veto"), (9, "cfg"), (7, "pol"), (2, "withdraw"),
            (3, "hook"), (1, "done"), (1 - appr, "noop"), (14 * appr, "approve"), (7 * appr, "reject"), (if away { 10 } else { 2 * appr }, "approver"), (2 * ar, "reset"), (8, "allow"),
            (3, "gift"), (4, "power"), (2, "fail"), (9, "adv"), (2, "dprop"), (ar, "aprop"), (4 * appr, "page")];
        let someone = |r: &mut Rng| r.s(&PEOPLE);
        let dao = |r: &mut Rng| if r.chance(9, 10) { "dao".to_string() } else { r.s(&["alice", "bob", "mod", "pp", "boss"]) };
        let tgt = |r: &mut Rng| if ar == 1 && r.chance(1, 6) { "app" } else { "pp" };
        let by_approver = |w: &W, r: &mut Rng| if r.chance(9, 10) {
            let a = w.lab.label(w.ext("pp", json!({"approver": {}})).as_str().unwrap_or("?"));
            if a == "app" && r.chance(5, 6) { "alice".to_string() } else { a }
        } else { r.s(&["dao", "boss", "alice", "adao", "app"]) };
        let own = |w: &W, r: &mut Rng| loop { let x = by_approver(w, r); if ar == 1 || (x != "adao" && x != "app") { return x; } };
        match r.wn(&ws) {
            "propose" => {
                let c = q(&self.app, &self.a("pp"), &json!({"config": {}}));
                let can: Vec<&str> = PEOPLE.iter().copied().filter(|p| q(&self.app, &self.a("pp"), &json!({"can_propose": {"address": p}})) == json!(true)).collect();
                let mut by = if can.is_empty() || r.chance(1, 8) { someone(r) } else { r.s(&can) };
                if appr == 1 && r.chance(1, 3) {
                    let a = self.lab.label(self.ext("pp", json!({"approver": {}})).as_str().unwrap_or("?"));
                    if can.contains(&a.as_str()) { by = a; }
                }
                let d = &c["deposit_info"];
                let mut f = vec![];
                if let Some(x) = d["denom"]["native"].as_str() {
                    let a = u(&d["amount"]).u128();
                    match r.below(14) {
                        0 => f.push(json!({"d": x, "a": (a + 1).to_string()})),
                        1 => if a > 1 { f.push(json!({"d": x, "a": (a - 1).to_string()})) },
                        2 => f.push(json!({"d": if x == "ua1" { "ub1" } else { "ua1" }, "a": a.to_string()})),
                        3 => for y in NATIVE { f.push(json!({"d": y, "a": a.to_string()})) },
                        _ => f.push(json!({"d": x, "a": a.to_string()})),
                    }
                } else if r.chance(1, 10) {
                    f.push(json!({"d": r.s(&NATIVE), "a": "1"}));
                }
                json!({"o": "propose", "by": by, "funds": f, "title": format!("t{}", self.tab.len()), "msgs": gmsgs(r),
                    "vote": if r.chance(1, 4) { r.s(&["yes", "no"]) } else { "none".into() }})
            }
            "dprop" => json!({"o": "dprop", "by": someone(r), "title": format!("t{}", self.tab.len()), "msgs": gmsgs(r), "vote": "none", "named": r.chance(1, 3)}),
            "aprop" => { self.aproposed += 1; json!({"o": "aprop", "by": r.s(&["alice", "adao", "boss"]), "title": "x", "id": r.range(1, 5)}) }
            "vote" => {
                let (m, v) = if ar == 1 && r.chance(1, 2) { ("a", &qs) } else { ("m", &ps) };
                let open = with(v, "open");
                let id = if !open.is_empty() && r.chance(9, 10) { *r.pick(&open) } else { r.range(1, 6) };
                json!({"o": "vote", "m": m, "by": if r.chance(6, 7) { "alice".to_string() } else { someone(r) }, "id": id, "v": r.s(&["yes", "yes", "no"])})
            }
            k @ ("exec" | "close" | "veto") => {
                let (m, v) = if ar == 1 && r.chance(1, 2) { ("a", &qs) } else { ("m", &ps) };
                let mut cand = with(v, match k { "exec" => "passed", "close" => "rejected", _ => "veto_timelock" });
                if k == "veto" && r.chance(1, 4) { cand.extend(with(v, "open")); }
                let id = if !cand.is_empty() && r.chance(12, 13) { *r.pick(&cand) } else { r.range(1, 6) };
                json!({"o": k, "m": m, "by": if k == "veto" && r.chance(9, 10) { "vera".to_string() } else { someone(r) }, "id": id})
            }
            "cfg" => json!({"o": "cfg", "c": tgt(r), "by": if r.chance(1, 10) { dao(r) } else { "dao".into() }, "dep": gdep(r), "pol": if r.chance(1, 2) { json!({"k": "keep", "mem": false, "al": [], "dl": []}) } else { gpol(r) }}),
            "pol" => {
                let l = |r: &mut Rng| if r.chance(1, 2) { json!(["*"]) } else { json!(r.list(&PEOPLE, 2)) };
                let c = q(&self.app, &self.a("pp"), &json!({"config": {}}));
                let any = c["submission_policy"].get("anyone").is_some() && r.chance(3, 4);
                json!({"o": "pol", "c": tgt(r), "by": dao(r), "dadd": l(r), "drm": l(r), "mem": if any { "keep".into() } else { r.s(&["keep", "keep", "y", "n"]) },
                    "aadd": if any { json!(["*"]) } else { l(r) }, "arm": if any { json!(["*"]) } else { l(r) }})
            }
            "withdraw" => json!({"o": "withdraw", "c": tgt(r), "by": dao(r), "d": gden(r)}),
            "hook" => {
                let c = tgt(r);
                let mut by = if appr == 1 && r.chance(1, 2) { own(self, r) } else { dao(r) };
                // the approver DAO's own listeners are not modelled
                if c == "app" && by == "adao" { by = "dao".into(); }
                json!({"o": "hook", "c": c, "by": by, "who": if ar == 1 && r.chance(1, 5) { "app".into() } else { r.s(&["l1", "l2"]) }, "add": r.chance(1, 2)})
            }
            "done" => json!({"o": "done", "c": tgt(r), "by": r.s(&["alice", "dao", "mod", "mod"]), "id": r.range(40, 44), "st": r.s(&["open", "passed", "rejected", "closed", "execution_failed"])}),
            "noop" => json!({"o": "noop", "by": someone(r)}),
            k @ ("approve" | "reject") => json!({"o": k, "by": own(self, r), "id": if pend.is_empty() || r.chance(1, 12) { r.range(1, 8) } else { *r.pick(&pend) }}),
            "approver" => json!({"o": "approver", "by": own(self, r), "who": if ar == 1 && r.chance(3, 4) { "app".into() } else { r.s(&["boss", "bob", "bob", "dao"]) }}),
            "reset" => json!({"o": "reset", "by": r.s(&["adao", "adao", "adao", "dao", "alice"])}),
            "allow" => json!({"o": "allow", "by": someone(r), "d": r.s(&TOKENS), "a": r.range(1, 9).to_string()}),
            "gift" => json!({"o": "gift", "by": someone(r), "d": r.s(&["ua1", "ub1", "tA", "tB"]), "a": r.range(1, 3).to_string()}),
            "power" => json!({"o": "power", "who": r.s(&["bob", "carol", "dave"]), "p": r.range(0, 1).to_string()}),
            "fail" => json!({"o": "fail", "who": r.s(&["l1", "l2"]), "on": r.chance(1, 3)}),
            "page" => json!({"o": "page", "list": r.s(&["pending", "completed"]), "after": r.below(8), "limit": r.range(0, 5) as i64 - 1, "rev": r.chance(1, 2)}),
            _ => { let k = r.range(0, 3); json!({"o": "adv", "n": k, "s": k * 5}) }
        }
    }
}
fn gmsgs(r: &mut Rng) -> Value {
    let n = match r.below(8) { 0..=2 => 0, 3..=6 => 1, _ => 2 };
    Value::Array((0..n).map(|_| match r.below(12) {
        0 => json!({"k": "fail"}),
        1 | 2 => json!({"k": "withdraw", "d": gden(r)}),
        _ => json!({"k": "pay", "a": r.s(&["1", "2", "5", "50"])}),
    }).collect())
}
fn gden(r: &mut Rng) -> Value {
    match r.below(10) {
        0..=3 => json!({"k": "none", "d": ""}),
        4 | 5 => json!({"k": "native", "d": r.s(&NATIVE)}),
        6 | 7 => json!({"k": "cw20", "d": r.s(&TOKENS)}),
        8 => json!({"k": "native", "d": r.s(&["x", "1ab", "tA"])}),
        _ => json!({"k": "cw20", "d": r.s(&["ua1", "dao"])}),
    }
}
fn gdep(r: &mut Rng) -> Value {
    if r.chance(1, 5) { return json!({"k": "none", "d": "", "a": "0", "r": "always"}); }
    let k = *r.pick(&["native", "native", "cw20", "cw20", "vmn", "vmc"]);
    let bad = r.chance(1, 16);
    let d = match k { "native" => r.s(if bad { &["x", "1ab", "a b c"] } else { &NATIVE }), "cw20" => r.s(if bad { &["ua1", "dao"] } else { &TOKENS }), _ => "".into() };
    json!({"k": k, "d": d, "a": if r.chance(1, 25) { "0".to_string() } else { r.range(1, 5).to_string() }, "r": r.s(&["always", "only_passed", "never"])})
}
fn gpol(r: &mut Rng) -> Value {
    if r.chance(1, 3) { return json!({"k": "anyone", "mem": false, "al": [], "dl": r.list(&PEOPLE, 2)}); }
    json!({"k": "specific", "mem": r.chance(2, 3), "al": r.list(&PEOPLE, 3), "dl": if r.chance(1, 3) { r.list(&PEOPLE, 2) } else { vec![] }})
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let kind = match focus {
        "deposit" => r.wn(&[(4, "single"), (4, "multiple"), (4, "approval"), (1, "approver")]),
        "policy" => r.wn(&[(4, "single"), (4, "multiple"), (3, "approval"), (1, "approver")]),
        "approval" => r.wn(&[(1, "approval"), (1, "approver")]),
        _ => r.wn(&[(1, "single"), (1, "multiple"), (1, "approval"), (1, "approver")]),
    };
    let open = kind == "approver" || r.chance(1, 3);
    let none = if focus == "deposit" { 0 } else { 4 };
    let v = |r: &mut Rng| if r.chance(1, 2) { 0 } else { r.range(1, 4) };
    json!({"kind": kind, "dep": if r.chance(none, 10) { json!({"k": "none", "d": "", "a": "0", "r": "always"}) } else { gdep(r) },
        "pol": if open { json!({"k": "anyone", "mem": false, "al": [], "dl": []}) } else { gpol(r) },
        "fund": r.range(0, 20).to_string(), "close": r.chance(2, 3), "period": r.range(2, 7), "veto": v(r), "aveto": v(r),
        "vmn": r.chance(1, 2), "vmt": r.chance(1, 2),
        "powers": {"alice": "100", "bob": r.below(2).to_string(), "carol": r.below(2).to_string(), "dave": "1"}})
}
fn main() {
    kit::main(&[kit::Suite { name: "prepro", cfg, new }, up::SUITE]);
}
