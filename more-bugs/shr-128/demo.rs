fn sh(x: u128, s: u32) -> u128 { x >> s }
fn main() {
    let x = 0x1234_5678_9abc_def0_1111_2222_3333_4444u128;
    if sh(x, 100) != 0x1234567 { panic!() }
    if sh(x, 3) != x / 8 { panic!() }
}
