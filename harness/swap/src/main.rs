use cw_token_swap::msg::*;
use kit::cosmwasm_std::{Addr, BankMsg, Coin, to_json_binary};
use kit::cw_multi_test::{ContractWrapper, Executor};
use kit::{env::*, json, Rng, Suite, Value, World};

struct W {
    app: App,
    swap: Addr,
    toks: Vec<Addr>,
    cfg: Value,
}
const PARTIES: [&str; 4] = ["alice", "bob", "carol", "dave"];

fn info(v: &Value, toks: &[Addr]) -> TokenInfo {
    if v["kind"] == "native" {
        TokenInfo::Native { denom: st(&v["tok"]), amount: u(&v["amt"]) }
    } else {
        TokenInfo::Cw20 { contract_addr: addr(v, toks), amount: u(&v["amt"]) }
    }
}
fn addr(v: &Value, toks: &[Addr]) -> String {
    if v["tok"] == "t1" { toks[0].to_string() } else { toks[1].to_string() }
}
fn new(cfg: &Value) -> kit::anyhow::Result<Box<dyn World>> {
    let mut app = app();
    let c20 = app.store_code(cw20_contract());
    let bals: Vec<(&str, u128)> = PARTIES.iter().map(|p| (*p, u(&cfg["bal"]).u128())).collect();
    let toks = vec![new_cw20(&mut app, c20, &bals), new_cw20(&mut app, c20, &bals)];
    for p in PARTIES {
        for d in ["n1", "n2"] {
            mint(&mut app, p, d, u(&cfg["bal"]).u128());
        }
    }
    let code = app.store_code(Box::new(ContractWrapper::new(
        cw_token_swap::contract::execute,
        cw_token_swap::contract::instantiate,
        cw_token_swap::contract::query,
    )));
    let swap = app.instantiate_contract(
        code,
        Addr::unchecked("deployer"),
        &InstantiateMsg {
            counterparty_one: Counterparty { address: st(&cfg["p1"]["who"]), promise: info(&cfg["p1"], &toks) },
            counterparty_two: Counterparty { address: st(&cfg["p2"]["who"]), promise: info(&cfg["p2"], &toks) },
        },
        &[],
        "swap",
        None,
    )?;
    Ok(Box::new(W { app, swap, toks, cfg: cfg.clone() }))
}
impl World for W {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        let by = st(&op["by"]);
        match op["o"].as_str().unwrap() {
            "fund" => exec(&mut self.app, &by, &self.swap.clone(), &ExecuteMsg::Fund {}, &funds(&op["funds"])),
            "send" => {
                let t = Addr::unchecked(addr(op, &self.toks));
                exec(&mut self.app, &by, &t, &cw20::Cw20ExecuteMsg::Send {
                    contract: self.swap.to_string(), amount: u(&op["amt"]), msg: to_json_binary(&"").unwrap(),
                }, &[])
            }
            // a forged receive call, not from a token the user controls
            "forge" => exec(&mut self.app, &by, &self.swap.clone(), &ExecuteMsg::Receive(cw20::Cw20ReceiveMsg {
                sender: st(&op["as"]), amount: u(&op["amt"]), msg: Default::default() }), &[]),
            "withdraw" => exec(&mut self.app, &by, &self.swap.clone(), &ExecuteMsg::Withdraw {}, &[]),
            // tokens that are nobody's provision
            "gift" => {
                let (tok, a) = (st(&op["tok"]), u(&op["amt"]));
                if tok.starts_with('n') { res(run(&mut self.app, &by, BankMsg::Send { to_address: self.swap.to_string(), amount: vec![Coin { denom: tok, amount: a }] }.into())) }
                else { let t = self.toks[(tok == "t2") as usize].clone(); exec(&mut self.app, &by, &t, &cw20::Cw20ExecuteMsg::Transfer { recipient: self.swap.to_string(), amount: a }, &[]) }
            }
            o => panic!("op {o}"),
        }
    }
    fn obs(&mut self) -> Value {
        let s: StatusResponse = self.app.wrap().query_wasm_smart(&self.swap, &QueryMsg::Status {}).unwrap();
        let mut bals = vec![];
        for (lab, a) in PARTIES.iter().map(|p| (p.to_string(), p.to_string())).chain([("swap".to_string(), self.swap.to_string())]) {
            bals.push((lab, json!({
                "n1": bal(&self.app, &Addr::unchecked(&a), "n1"), "n2": bal(&self.app, &Addr::unchecked(&a), "n2"),
                "t1": cw20_bal(&self.app, &self.toks[0], &a), "t2": cw20_bal(&self.app, &self.toks[1], &a)})));
        }
        json!({"prov": [s.counterparty_one.provided, s.counterparty_two.provided],
               "who": [s.counterparty_one.address, s.counterparty_two.address], "bal": map(bals)})
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let np = if r.chance(5, 6) { 2 } else { 4 };
        let by = r.s(&PARTIES[..np]);
        let p = if by == self.cfg["p2"]["who"].as_str().unwrap() { &self.cfg["p2"] } else { &self.cfg["p1"] }.clone();
        let right = u(&p["amt"]).u128();
        let amt = |r: &mut Rng| -> String {
            (match r.below(8) { 0 => right + 1, 1 => right.saturating_sub(1), 2 => 0, 3 => 1, _ => right }).to_string()
        };
        match r.below(11) {
            10 => {
                let (a, tok) = (amt(r), if r.chance(2, 3) { st(&p["tok"]) } else { r.s(&["n1", "n2", "t1", "t2"]) });
                json!({"o": "gift", "by": r.s(&PARTIES), "tok": tok, "amt": if a == "0" { "7".to_string() } else { a }})
            }
            0..=4 => {
                let native = if r.chance(4, 5) { p["kind"] == "native" } else { r.chance(1, 2) };
                let tok = if r.chance(5, 6) && native == (p["kind"] == "native") { st(&p["tok"]) }
                    else if native { r.s(&["n1", "n2"]) } else { r.s(&["t1", "t2"]) };
                if native {
                    let a = amt(r);
                    let mut f = if a == "0" { vec![] } else { vec![json!({"d": tok, "a": a})] };
                    if r.chance(1, 12) { f.push(json!({"d": if tok == "n1" {"n2"} else {"n1"}, "a": "1"})); }
                    json!({"o": "fund", "by": by, "funds": f})
                } else {
                    json!({"o": "send", "by": by, "tok": tok, "amt": amt(r)})
                }
            }
            5 => json!({"o": "forge", "by": by, "as": r.s(&PARTIES[..2]), "amt": amt(r)}),
            _ => json!({"o": "withdraw", "by": by}),
        }
    }
}
fn cfg(r: &mut Rng, _f: &str) -> Value {
    let side = |r: &mut Rng, who: &str| {
        let native = r.chance(1, 2);
        let amt: u128 = match r.below(6) { 0 => 0, 1 => 1, 2 => 1 << 100, _ => 100 + r.below(50) as u128 };
        json!({"who": who, "kind": if native {"native"} else {"cw20"},
               "tok": if native { r.s(&["n1","n2"]) } else { r.s(&["t1","t2"]) }, "amt": amt.to_string()})
    };
    let p1 = side(r, "alice");
    let w2 = if r.chance(1, 30) { "alice" } else { "bob" };
    let mut p2 = side(r, w2);
    // the same on both sides
    if r.chance(1, 8) { p2 = p1.clone(); p2["who"] = json!(w2); }
    let bal: u128 = match r.below(3) { 0 => 160, _ => 1 << 101 };
    json!({"p1": p1, "p2": p2, "bal": bal.to_string()})
}
fn main() {
    kit::main(&[Suite { name: "swap", cfg, new }]);
}
