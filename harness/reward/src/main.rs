mod fund;
mod rewards;
mod stream;
mod up;
fn main() {
    kit::main(&[stream::SUITE, up::SUITE, rewards::SUITE, fund::SUITE]);
}
