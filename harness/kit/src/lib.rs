//! Driver kit: runs random or given operation sequences on the real contracts
//! and records, for every step, the operation, whether it succeeded, and the
//! whole projected state (queries and balances). No oracle lives here; the
//! oracle is the TLA+ specification that reads the recorded traces.
pub use anyhow;
pub use cosmwasm_std;
pub use cw_multi_test;
pub use serde_json;
pub use serde_json::{json, Value};
use rand::{Rng as _, RngCore, SeedableRng};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod chain;
pub mod env;
pub mod mock;

pub struct Rng(pub rand_chacha::ChaCha8Rng);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = rand_chacha::ChaCha8Rng::seed_from_u64(seed);
        r.set_stream(stream);
        Rng(r)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.0.gen_range(0..n) }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        self.0.gen_range(lo..=hi)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn s(&mut self, xs: &[&str]) -> String {
        (*self.pick(xs)).to_string()
    }
    pub fn u128(&mut self) -> u128 {
        ((self.0.next_u64() as u128) << 64) | self.0.next_u64() as u128
    }
    /// weighted choice: index
    pub fn w(&mut self, ws: &[u32]) -> usize {
        let t: u32 = ws.iter().sum();
        let mut x = self.below(t as u64) as u32;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        ws.len() - 1
    }
    /// weighted choice of a name
    pub fn wn<'a>(&mut self, ws: &[(u32, &'a str)]) -> &'a str {
        let v: Vec<u32> = ws.iter().map(|x| x.0).collect();
        ws[self.w(&v)].1
    }
    /// small subset (possibly with repeats) of xs of length 0..=max
    pub fn list(&mut self, xs: &[&str], max: u64) -> Vec<String> {
        let n = self.below(max + 1);
        (0..n).map(|_| self.s(xs)).collect()
    }
    /// an amount: small, boundary or medium
    pub fn amt(&mut self, max: u128) -> u128 {
        if max == 0 { return 0; }
        match self.below(6) {
            0 => 1.min(max),
            1 => max,
            2 => (self.below(10) as u128).min(max),
            3 => max.saturating_sub(1),
            _ => self.u128() % (max.saturating_add(1).max(1)),
        }
    }
}

pub trait World {
    /// executes one operation on the real code: (succeeded, observable output)
    fn exec(&mut self, op: &Value) -> (bool, Value);
    /// the projected state
    fn obs(&mut self) -> Value;
    /// proposes the next operation
    fn gen(&mut self, r: &mut Rng) -> Value;
}

pub struct Suite {
    pub name: &'static str,
    pub cfg: fn(&mut Rng, &str) -> Value,
    pub new: fn(&Value) -> anyhow::Result<Box<dyn World>>,
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

fn step(w: &mut Box<dyn World>, op: Value) -> (Value, bool) {
    let (ok, out, panicked) = match quiet(|| w.exec(&op)) {
        Ok((ok, out)) => (ok, out, false),
        Err(e) => (false, json!({ "panic": e }), true),
    };
    match quiet(|| w.obs()) {
        Ok(obs) => (
            json!({"op": op, "ok": ok, "out": out, "obs": obs, "panic": panicked}),
            true,
        ),
        Err(e) => (
            json!({"op": op, "ok": ok, "out": out, "obs": {"obs_error": e}, "panic": panicked}),
            false,
        ),
    }
}

fn begin(s: &Suite, cfg: &Value) -> (Option<Box<dyn World>>, Value) {
    match quiet(|| (s.new)(cfg)) {
        Ok(Ok(mut w)) => match quiet(|| w.obs()) {
            Ok(o) => (Some(w), json!({"ok": true, "obs": o, "err": ""})),
            Err(e) => (None, json!({"ok": true, "obs": {"obs_error": e}, "err": ""})),
        },
        Ok(Err(e)) => (None, json!({"ok": false, "obs": {}, "err": format!("{e:#}")})),
        Err(e) => (None, json!({"ok": false, "obs": {}, "err": format!("panic: {e}")})),
    }
}

/// keeps in every step only the observed fields that differ from the step before
fn strip(init: &Value, steps: &mut [Value]) {
    let mut prev = init["obs"].clone();
    for st in steps.iter_mut() {
        let full = st["obs"].clone();
        if let (Some(p), Some(o)) = (prev.as_object(), st["obs"].as_object_mut()) {
            o.retain(|k, v| p.get(k) != Some(v));
        }
        prev = full;
    }
}

pub fn run_one(s: &Suite, seed: u64, stream: u64, len: usize, focus: &str) -> Value {
    let mut r = Rng::new(seed, stream);
    let cfg = (s.cfg)(&mut r, focus);
    let (w, init) = begin(s, &cfg);
    let mut steps = vec![];
    if let Some(mut w) = w {
        for _ in 0..len {
            let op = match quiet(|| w.gen(&mut r)) {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("generator panicked: {e}");
                    break;
                }
            };
            let (v, go) = step(&mut w, op);
            steps.push(v);
            if !go {
                break;
            }
        }
    }
    strip(&init, &mut steps);
    json!({"id": format!("r{seed}.{stream}"), "cfg": cfg, "init": init, "steps": steps})
}

pub fn replay_one(s: &Suite, id: &str, cfg: &Value, ops: &[Value]) -> Value {
    let (w, init) = begin(s, cfg);
    let mut steps = vec![];
    if let Some(mut w) = w {
        for op in ops {
            let (v, go) = step(&mut w, op.clone());
            steps.push(v);
            if !go {
                break;
            }
        }
    }
    strip(&init, &mut steps);
    json!({"id": id, "cfg": cfg, "init": init, "steps": steps})
}

/// what the specification language cannot hold (nothing, numbers beyond 32 bits) as text
fn plain(v: &mut Value) {
    match v {
        Value::Null => *v = json!("null"),
        Value::Number(n) if n.as_i64().map(|x| x.abs() >= 1 << 31).unwrap_or(true) => *v = json!(format!("#{n}")),
        Value::Array(a) => a.iter_mut().for_each(plain),
        Value::Object(o) => o.values_mut().for_each(plain),
        _ => {}
    }
}

fn arg(name: &str, def: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    let n = format!("--{name}");
    for i in 0..a.len() {
        if a[i] == n && i + 1 < a.len() {
            return a[i + 1].clone();
        }
    }
    def.to_string()
}

/// `gen --seed S --traces N --len L --focus F --out FILE [--debug 1]`
/// `replay --in FILE --out FILE`   one {"id","cfg","ops"} per line
pub fn main(suites: &[Suite]) {
    std::panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let sname = arg("suite", suites[0].name);
    let suite = suites
        .iter()
        .find(|s| s.name == sname)
        .unwrap_or_else(|| panic!("no suite {sname}"));
    let out = arg("out", "/dev/stdout");
    let nthreads: usize = arg("threads", "4").parse().unwrap();
    let jobs: Vec<(usize, Option<Value>)> = match cmd.as_str() {
        "gen" => {
            let n: usize = arg("traces", "10").parse().unwrap();
            (0..n).map(|i| (i, None)).collect()
        }
        "replay" => {
            let f = std::fs::File::open(arg("in", "/dev/stdin")).expect("open input");
            std::io::BufReader::new(f)
                .lines()
                .map(|l| l.unwrap())
                .filter(|l| !l.trim().is_empty())
                .enumerate()
                .map(|(i, l)| (i, Some(serde_json::from_str(&l).expect("json"))))
                .collect()
        }
        _ => {
            eprintln!("usage: gen|replay");
            std::process::exit(2);
        }
    };
    let seed: u64 = arg("seed", "1").parse().unwrap();
    let len: usize = arg("len", "40").parse().unwrap();
    let focus = arg("focus", "");
    let base: u64 = arg("base", "0").parse().unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results = std::sync::Mutex::new(vec![None; jobs.len()]);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= jobs.len() {
                        return;
                    }
                    let (i, j) = &jobs[k];
                    let mut v = match j {
                        None => run_one(suite, seed, base + *i as u64, len, &focus),
                        Some(j) => replay_one(
                            suite,
                            j["id"].as_str().unwrap_or("x"),
                            &j["cfg"],
                            j["ops"].as_array().map(|a| a.as_slice()).unwrap_or(&[]),
                        ),
                    };
                    plain(&mut v);
                    results.lock().unwrap()[k] = Some(v.to_string());
                })
                .unwrap();
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("create out"));
    for r in results.into_inner().unwrap().into_iter().flatten() {
        writeln!(f, "{r}").unwrap();
    }
}
