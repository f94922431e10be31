//! Exact wide integers used by the oracles (independent of the repository's own wide types).
#![allow(clippy::all)]
#![allow(dead_code)]
use uint::construct_uint;
construct_uint! {
    pub struct B(12); // 768 bits: no product in the oracles comes near it
}

pub fn b(x: u128) -> B {
    B::from(x)
}
pub fn p10(n: u32) -> B {
    B::from(10u8).pow(B::from(n))
}
pub fn div_up(n: B, d: B) -> B {
    (n + (d - B::from(1u8))) / d
}
pub fn to128(x: B) -> Option<u128> {
    if x > B::from(u128::MAX) {
        None
    } else {
        Some(x.as_u128())
    }
}
