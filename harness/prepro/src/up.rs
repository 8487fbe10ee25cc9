//! A pre-propose module that starts on the code of 2.4.1 and is then migrated.
use super::*;
use kit::cosmwasm_std::to_json_binary;

pub const SUITE: kit::Suite = kit::Suite { name: "preproup", cfg, new };

struct Up {
    w: W,
    code: u64,
    past: u64,
    len: u64,
}
fn members(open: bool) -> Value {
    if open { json!({"k": "anyone", "mem": false, "al": [], "dl": []}) } else { json!({"k": "specific", "mem": true, "al": [], "dl": []}) }
}
fn cfg(r: &mut Rng, focus: &str) -> Value {
    let mut c = super::cfg(r, focus);
    while c["kind"] == "approver" { c = super::cfg(r, focus); }
    c["pol"] = members(r.chance(1, 2));
    c["up"] = json!(true);
    c["past"] = json!(r.below(30));
    c
}
fn new(cfg: &Value) -> anyhow::Result<Box<dyn World>> {
    let (w, code) = build(cfg)?;
    Ok(Box::new(Up { w, code, past: 0, len: cfg["past"].as_u64().unwrap() }))
}
impl World for Up {
    fn exec(&mut self, op: &Value) -> (bool, Value) {
        if self.w.old { self.past += 1; }
        match op["o"].as_str().unwrap() {
            "upgrade" => {
                let m = json!({"from_under_v250": {"policy": pol(&op["pol"])}});
                let x = WasmMsg::Migrate { contract_addr: self.w.lab.addr("pp"), new_code_id: self.code, msg: to_json_binary(&m).unwrap() };
                let by = self.w.lab.addr(op["by"].as_str().unwrap());
                let r = res(run(&mut self.w.app, &by, x.into()));
                if r.0 { self.w.old = false; }
                r
            }
            _ => self.w.exec(op),
        }
    }
    fn obs(&mut self) -> Value {
        if self.w.old { return json!({"phase": "old"}); }
        let mut o = self.w.obs();
        o["phase"] = json!("new");
        o
    }
    fn gen(&mut self, r: &mut Rng) -> Value {
        let keep = json!({"k": "keep", "mem": false, "al": [], "dl": []});
        if !self.w.old && r.chance(79, 80) { return self.w.gen(r); }
        if !self.w.old || self.past >= self.len && r.chance(1, 2) {
            return json!({"o": "upgrade", "by": if r.chance(1, 15) { "alice" } else { "dao" }, "pol": if r.chance(1, 2) { keep } else { gpol(r) }});
        }
        loop {
            let mut o = self.w.gen(r);
            match o["o"].as_str().unwrap() {
                "pol" | "page" => continue,
                "cfg" => o["pol"] = members(r.chance(1, 2)),
                _ => {}
            }
            return o;
        }
    }
}
