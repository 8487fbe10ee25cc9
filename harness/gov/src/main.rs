mod common;
mod cond;
mod multi;
mod points;
mod single;
mod up;
fn main() {
    kit::main(&[
        kit::Suite { name: "points", cfg: points::cfg, new: points::new },
        kit::Suite { name: "single", cfg: single::cfg, new: single::new },
        kit::Suite { name: "multi", cfg: multi::cfg, new: multi::new },
        kit::Suite { name: "singleup", cfg: up::cfg, new: up::new },
        kit::Suite { name: "cond", cfg: cond::cfg, new: cond::new },
    ]);
}
