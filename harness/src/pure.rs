#![allow(dead_code)]
//! Shared pieces of the monitors of pure functions (C19, C20, C22, single steps).
use crate::big::*;
use crate::refm;
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type V = Result<(), String>;

pub fn is_pure(p: &str) -> bool {
    matches!(p, "C19" | "C20" | "C21" | "C22")
}

pub const TICKS: i64 = 2 * refm::MAX_TICK as i64 + 1;
pub const SLICE: i64 = 512;
pub const SLICES: u64 = ((TICKS + SLICE - 1) / SLICE) as u64;

pub fn plan(p: &str) -> (u64, u64, usize) {
    match p {
        "C19" => (SLICES + 6_000, SLICES + 60_000, 1),
        "C20" => (4_000, 250_000, 1),
        "C21" => (900, 40_000, 40),
        _ => (40_000, 2_000_000, 1),
    }
}

pub fn rule(p: &str) -> Option<&'static str> {
    Some(match p {
        "C19" => "every tick of the range is converted to its price and prices at, just below, just above and between ticks are converted back for spacing 1 and several others; plus random bitmaps searched in both directions; a case is one conversion or search; non-trivial: all arguments in range; distinct by content hash (counted up to a cap)",
        "C20" => "every arithmetic operation of the fixed-point library for all ordered pairs of ten fixed-point types with operands at powers of ten and two, extremes, and the rounding and overflow boundaries of each operation; a case is one operation on one operand pair; non-trivial: both operands non-zero; distinct by content hash (counted up to a cap)",
        "C21" => "swaps and claims of random scenarios executed by the contract in the simulated chain against the SDK's result computed from the contract's query answers, and SDK helpers against the contract's on random arguments; a case is one comparison; non-trivial: the contract produced a result; distinct by content hash (counted up to a cap)",
        "C22" => "liquidity computed from random and boundary amounts, ranges and prices by contract and SDK; a case is one call judged against the deposit formulas; non-trivial: a liquidity above zero was returned; distinct by content hash (counted up to a cap)",
        _ => return None,
    })
}

pub fn assumptions(p: &str) -> Vec<&'static str> {
    match p {
        "C21" => vec![
            "the SDK is compiled natively; its JavaScript argument for ticks is supplied through the verif_hooks hook, and functions that return a JavaScript BigInt are not run",
            "the exploration is a sample: a violation on an argument not generated is not seen",
        ],
        "C19" => vec!["the accuracy reference is 1.0001^(t/2) in f64"],
        "C20" | "C22" => vec!["the exploration is a sample: a violation on an operand not generated is not seen"],
        _ => vec![
            "token contracts, bank module and message dispatch are a simulation that follows the CosmWasm rules (all-or-nothing transactions, cw20 allowances)",
            "the exploration is a sample of histories: a violation needing a history not generated is not seen",
        ],
    }
}

/// None: refused (error or abort)
pub fn tryit<T>(f: impl FnOnce() -> Option<T>) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(None)
}

pub fn near(r: &mut Rng, x: u128) -> u128 {
    match r.below(5) {
        0 => x.saturating_sub(1),
        1 => x.saturating_add(1),
        2 => x.saturating_sub(r.below(4) as u128),
        3 => x.saturating_add(r.below(4) as u128),
        _ => x,
    }
}
pub fn val(r: &mut Rng, max: u128) -> u128 {
    let x = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => near(r, max),
        4 | 5 => {
            let k = 10u128.pow(r.below(39) as u32);
            let k = k.saturating_mul(r.range(1, 12) as u128);
            near(r, k)
        }
        6 | 7 => {
            let k = 1u128 << r.below(128);
            near(r, k)
        }
        8 => r.below128(max),
        9 => r.below(1000) as u128,
        _ => r.mag(0, 127),
    };
    if x > max {
        match r.below(3) {
            0 => max,
            1 => x % max,
            _ => near(r, max).min(max),
        }
    } else {
        x
    }
}
pub fn clip(x: B, max: u128) -> u128 {
    if x > b(max) {
        max
    } else {
        x.low_u128()
    }
}

