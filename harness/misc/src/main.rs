mod factory;
mod issuer;
mod vest;
fn main() {
    kit::main(&[vest::SUITE, issuer::SUITE, factory::SUITE]);
}
