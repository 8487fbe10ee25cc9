// a little chain to show things on
#![allow(dead_code)]
pub use cosmwasm_std::{coins, Addr, BankMsg, Binary, Coin, Empty, Uint128};
pub use cw_multi_test::{App, BankSudo, Contract, ContractWrapper, Executor, SudoMsg};
pub use serde_json::{json, Value};
pub struct K(pub App);
pub fn bin(v: Value) -> Binary {
    Binary::from(v.to_string().into_bytes())
}
impl K {
    pub fn new() -> K {
        K(App::default())
    }
    pub fn mint(&mut self, to: &str, denom: &str, n: u128) {
        self.0.sudo(SudoMsg::Bank(BankSudo::Mint { to_address: to.into(), amount: coins(n, denom) })).unwrap();
    }
    pub fn store(&mut self, c: Box<dyn Contract<Empty>>) -> u64 {
        self.0.store_code(c)
    }
    pub fn init(&mut self, code: u64, by: &str, m: Value, f: &[Coin]) -> Addr {
        self.0.instantiate_contract(code, Addr::unchecked(by), &m, f, "x", None).unwrap()
    }
    pub fn exec(&mut self, by: &str, c: &Addr, m: Value, f: &[Coin]) -> Result<(), String> {
        self.0.execute_contract(Addr::unchecked(by), c.clone(), &m, f).map(|_| ()).map_err(|e| e.root_cause().to_string())
    }
    pub fn q(&self, c: &Addr, m: Value) -> Value {
        self.0.wrap().query_wasm_smart(c, &m).unwrap()
    }
    pub fn try_q(&self, c: &Addr, m: Value) -> Option<Value> {
        self.0.wrap().query_wasm_smart(c, &m).ok()
    }
    pub fn bal(&self, w: &str, d: &str) -> u128 {
        self.0.wrap().query_balance(w, d).unwrap().amount.u128()
    }
    pub fn bal20(&self, t: &Addr, w: &str) -> u128 {
        self.q(t, json!({"balance": {"address": w}}))["balance"].as_str().unwrap().parse().unwrap()
    }
    pub fn next(&mut self, h: u64, s: u64) {
        self.0.update_block(|b| { b.height += h; b.time = b.time.plus_seconds(s); });
    }
    pub fn height(&self) -> u64 {
        self.0.block_info().height
    }
    pub fn ns(&self, s: i64) -> String {
        ((self.0.block_info().time.nanos() as i64) + s * 1_000_000_000).to_string()
    }
}
