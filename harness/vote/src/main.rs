mod common;
mod group;
mod nft;
mod stake;
mod up;
fn main() {
    kit::main(&[stake::SUITE, up::SUITE, nft::SUITE, group::SUITE]);
}
