//! The SDK's liquidity-from-amount helpers.
use crate::c22::Liq;
use crate::mon::Ev;
use crate::pure::{tryit, V};
use oraiswap_v3_wasm as sk;
use sk::sqrt_price::SqrtPrice as SS;
use sk::token_amount::TokenAmount as ST;

pub fn sdk_liq() -> Liq {
    Liq {
        by_x: Box::new(|x, lo, hi, p, up| tryit(|| sk::get_liquidity_by_x(ST(x), lo, hi, SS(p), up).ok()).map(|r| (r.l.0, r.amount.0))),
        by_y: Box::new(|y, lo, hi, p, up| tryit(|| sk::get_liquidity_by_y(ST(y), lo, hi, SS(p), up).ok()).map(|r| (r.l.0, r.amount.0))),
        both: None,
    }
}

pub fn c22(seed: u64, case: u64, ev: &mut Ev) -> V {
    if case % 2 == 0 {
        crate::c22::c22(seed, case, ev, "contract", &crate::c22::contract_liq())
    } else {
        crate::c22::c22(seed, case, ev, "SDK", &sdk_liq())
    }
}
