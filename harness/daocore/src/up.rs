//! A DAO that lived its first life on cw-core v1 and is then migrated to dao-dao-core.
use super::*;

pub struct Up {
    w: W,
    done: bool,
}
fn spec1(v: &Value) -> Value {
    json!({"code_id": MOD, "label": "mod", "msg": bin(&json!({"fail": false, "cb": [], "powers": v["powers"]})),
        "admin": if v["adm"] == "core" { json!({"core_contract": {}}) } else if v["adm"] == "" { json!({"none": {}}) } else { json!({"address": {"addr": v["adm"]}}) }})
}
fn config1(c: &Value) -> Value {
    json!({"name": c["name"], "description": c["desc"], "image_url": opt(&c["image"]), "automatically_add_cw20s": c["c20"], "automatically_add_cw721s": c["c721"]})
}
pub fn cfg(r: &mut Rng, _focus: &str) -> Value {
    let e = json!({});
    // many modules now and then: more letters, and addresses that do not sort as numbers
    let n = match r.below(12) { 0 => r.range(26, 30), 1 | 2 => r.range(4, 7), _ => r.range(1, 3) };
    json!({"cfg": gen_cfg(r), "admin": r.s(&["", "", "alice", "bob"]), "vm": gen_mod(r, &e, 0), "mods": (0..n).map(|_| gen_mod(r, &e, 0)).collect::<Vec<_>>(),
        "items": [["k1", "v1"]], "fund": *r.pick(&["0", "10", "100"]), "seed": r.below(1 << 30), "len": r.below(25)})
}
pub fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let (mut app, code) = setup()?;
    let v1 = app.store_code(Box::new(
        ContractWrapper::new(cw_core_v1::contract::execute, cw_core_v1::contract::instantiate, cw_core_v1::contract::query)
            .with_reply(cw_core_v1::contract::reply)
            .with_migrate(cw_core_v1::contract::migrate),
    ));
    let mut r = Rng::new(cfg["seed"].as_u64().unwrap(), 7);
    let core = app.instantiate_contract(
        v1,
        Addr::unchecked("deployer"),
        &json!({"admin": opt(&cfg["admin"]), "name": cfg["cfg"]["name"], "description": cfg["cfg"]["desc"], "image_url": opt(&cfg["cfg"]["image"]),
            "automatically_add_cw20s": cfg["cfg"]["c20"], "automatically_add_cw721s": cfg["cfg"]["c721"],
            "voting_module_instantiate_info": spec1(&cfg["vm"]),
            "proposal_modules_instantiate_info": cfg["mods"].as_array().unwrap().iter().map(spec1).collect::<Vec<_>>(),
            "initial_items": cfg["items"].as_array().unwrap().iter().map(|x| json!({"key": x[0], "value": x[1]})).collect::<Vec<_>>()}),
        &[],
        "dao",
        Some("deployer".into()),
    )?;
    assert_eq!(core.as_str(), CORE);
    mint(&mut app, CORE, "ujuno", u(&cfg["fund"]).u128());
    let mut up = Up { w: W { app, core, code, nft: 0, page: json!([]) }, done: false };
    for _ in 0..cfg["len"].as_u64().unwrap() {
        up.past(&mut r);
    }
    Ok(Box::new(up))
}
impl Up {
    /// something happens to the old DAO (or is refused)
    fn past(&mut self, r: &mut Rng) {
        let e = json!({});
        let mods = self.w.q(json!({"proposal_modules": {}}));
        let m1 = |r: &mut Rng| r.pick(mods.as_array().unwrap()).clone();
        let addrs = ["contract0", "contract1", "contract2", "contract3", "contract4", "alice"];
        let admin = self.w.q(json!({"admin": {}}));
        let nom = self.w.q(json!({"admin_nomination": {}}))["nomination"].clone();
        let (by, m) = match r.below(16) {
            0 | 1 => (json!(CORE), json!({"set_item": {"key": r.s(&KEYS), "addr": r.s(&["v1", "v2", "v3"])}})),
            2 => (json!(CORE), json!({"remove_item": {"key": r.s(&KEYS)}})),
            3 | 4 => (json!(CORE), json!({"update_cw20_list": {"to_add": r.list(&addrs[..3], 3), "to_remove": r.list(&addrs[..3], 1)}})),
            5 => (json!(CORE), json!({"update_cw20_list": {"to_add": r.list(&addrs, 1), "to_remove": []}})),
            6 => (json!(CORE), json!({"update_cw721_list": {"to_add": r.list(&addrs, 2), "to_remove": r.list(&addrs, 1)}})),
            7 | 8 => {
                let na = r.below(2);
                let rm: Vec<Value> = (0..r.below(2)).map(|_| m1(r)).collect();
                (json!(CORE), json!({"update_proposal_modules": {"to_add": (0..na).map(|_| spec1(&gen_mod(r, &e, 0))).collect::<Vec<_>>(), "to_remove": rm}}))
            }
            9 => (json!(CORE), json!({"update_voting_module": {"module": spec1(&gen_mod(r, &e, 0))}})),
            10 => (json!(CORE), json!({"update_config": {"config": config1(&gen_cfg(r))}})),
            11 | 12 => (admin, json!({"nominate_admin": {"admin": r.s(&["alice", "bob", "carol"])}})),
            13 if nom.is_string() => (nom, json!({"accept_admin_nomination": {}})),
            14 if r.chance(1, 3) => (json!(CORE), json!({"pause": {"duration": dur(&json!({"k": r.s(&["h", "t"]), "v": r.below(9)}))}})),
            _ => { let n = r.below(3); advance(&mut self.w.app, &json!({"n": n, "s": n * 5})); return; }
        };
        let _ = exec(&mut self.w.app, by.as_str().unwrap(), &self.w.core.clone(), &m, &[]);
    }
    fn dump(&self) -> Value {
        let w = &self.w;
        let b = w.app.block_info();
        let c = w.q(json!({"config": {}}));
        let pi = w.q(json!({"pause_info": {}}));
        let all = |m: &str| w.q(json!({m: {"limit": 1000}}));
        let mods = all("proposal_modules");
        let mut nc = 0;
        while w.app.contract_data(&Addr::unchecked(format!("contract{nc}"))).is_ok() { nc += 1; }
        // everything instantiated after the core contract is a module
        let made: Vec<String> = (6..nc).map(|i| format!("contract{i}")).collect();
        let pow = |a: &String, x: &str| q(&w.app, &Addr::unchecked(a.clone()), &if x == "total" { json!({"total_power_at_height": {}}) } else { json!({"voting_power_at_height": {"address": x}}) })["power"].clone();
        json!({"h": b.height - H0, "t": b.time.seconds() - T0, "nc": nc, "admin": w.q(json!({"admin": {}})),
            "nom": w.q(json!({"admin_nomination": {}}))["nomination"].as_str().unwrap_or(""),
            "paused": if pi.get("Unpaused").is_some() { json!({"k": "none", "v": 0}) } else { ser(&pi["Paused"]["expiration"]) },
            "cfg": {"name": c["name"], "desc": c["description"], "image": c["image_url"].as_str().unwrap_or(""), "c20": c["automatically_add_cw20s"], "c721": c["automatically_add_cw721s"]},
            "mods": mods, "vm": w.q(json!({"voting_module": {}})), "items": all("list_items"), "c20": all("cw20_token_list"), "c721": all("cw721_token_list"),
            "pows": map(made.iter().map(|a| (a.clone(), json!({"alice": pow(a, "alice"), "bob": pow(a, "bob"), "total": pow(a, "total")})))),
            "adm": map(made.iter().map(|a| (a.clone(), w.admin_of(a)))),
            "fund": bal(&w.app, &w.core, "ujuno")})
    }
}
impl World for Up {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        if op["o"] != "import" && op["o"] != "again" { return self.w.exec(op); }
        let m = if op["k"] == "compat" { json!({"from_compatible": {}}) } else { json!({"from_v1": {"dao_uri": opt(&op["uri"]), "params": null}}) };
        let r = res(self.w.app.migrate_contract(Addr::unchecked(st(&op["by"])), self.w.core.clone(), &m, self.w.code));
        self.done |= r.0;
        r
    }
    fn obs(&mut self) -> Value {
        if !self.done { return json!({"phase": "old"}); }
        let mut o = self.w.obs();
        o["phase"] = json!("new");
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        if self.done && r.chance(1, 40) {
            return json!({"o": "again", "k": r.s(&["v1", "compat"]), "by": r.wn(&[(3, "deployer"), (1, "alice")]), "uri": ""});
        }
        if self.done { return self.w.gen(r); }
        json!({"o": "import", "by": if r.chance(1, 20) { "alice" } else { "deployer" }, "uri": r.s(&["", "uri1"]), "dump": self.dump()})
    }
}
