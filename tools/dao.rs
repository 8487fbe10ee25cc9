// a DAO with a membership group (cw4) and one proposal module
#![allow(dead_code)]
use crate::k::*;
pub struct Dao {
    pub core: Addr,
    pub group: Addr,
    pub vm: Addr,
    pub pm: Addr,
}
/// `pm`: the proposal module and its instantiation message; the group is "boss"'s
pub fn dao(k: &mut K, pm: Box<dyn Contract<Empty>>, msg: Value, members: &[(&str, u64)]) -> Dao {
    let g = k.store(Box::new(ContractWrapper::new(cw4_group::contract::execute, cw4_group::contract::instantiate, cw4_group::contract::query)));
    let v = k.store(Box::new(ContractWrapper::new(dao_voting_cw4::contract::execute, dao_voting_cw4::contract::instantiate, dao_voting_cw4::contract::query).with_reply(dao_voting_cw4::contract::reply)));
    let c = k.store(Box::new(ContractWrapper::new(dao_dao_core::contract::execute, dao_dao_core::contract::instantiate, dao_dao_core::contract::query).with_reply(dao_dao_core::contract::reply)));
    let p = k.store(pm);
    let ms: Vec<Value> = members.iter().map(|(a, w)| json!({"addr": a, "weight": w})).collect();
    let group = k.init(g, "boss", json!({"admin": "boss", "members": ms}), &[]);
    let info = |code: u64, m: Value| json!({"code_id": code, "msg": bin(m), "admin": {"core_module": {}}, "funds": [], "label": "m"});
    k.next(1, 5);
    let core = k.init(c, "boss", json!({"admin": null, "name": "d", "description": "d", "image_url": null, "automatically_add_cw20s": true, "automatically_add_cw721s": true,
        "voting_module_instantiate_info": info(v, json!({"group_contract": {"existing": {"address": group}}})),
        "proposal_modules_instantiate_info": [info(p, msg)], "initial_items": null, "dao_uri": null}), &[]);
    k.next(1, 5);
    let vm = Addr::unchecked(k.q(&core, json!({"voting_module": {}})).as_str().unwrap());
    let pm = Addr::unchecked(k.q(&core, json!({"proposal_modules": {}}))[0]["address"].as_str().unwrap());
    Dao { core, group, vm, pm }
}
