//! Fixed-point arithmetic: every returned value against exact wide arithmetic.
use crate::big::*;
use crate::mon::Ev;
use crate::pure::*;
use crate::rng::Rng;
use decimal::*;
use oraiswap_v3::fee_growth::{calculate_fee_growth_inside, FeeGrowth};
use oraiswap_v3::fixed_point::FixedPoint;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::seconds_per_liquidity::SecondsPerLiquidity;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

trait ToB {
    fn to_b(self) -> B;
    fn from_b(x: B) -> Self;
}
impl ToB for U256 {
    fn to_b(self) -> B {
        let mut y = [0u8; 32];
        self.to_little_endian(&mut y);
        B::from_little_endian(&y)
    }
    fn from_b(x: B) -> Self {
        let mut y = [0u8; 96];
        x.to_little_endian(&mut y);
        U256::from_little_endian(&y[..32])
    }
}
impl ToB for U320 {
    fn to_b(self) -> B {
        let mut y = [0u8; 40];
        self.to_little_endian(&mut y);
        B::from_little_endian(&y)
    }
    fn from_b(x: B) -> Self {
        let mut y = [0u8; 96];
        x.to_little_endian(&mut y);
        U320::from_little_endian(&y[..40])
    }
}
impl ToB for u128 {
    fn to_b(self) -> B {
        b(self)
    }
    fn from_b(x: B) -> Self {
        x.low_u128()
    }
}

#[decimal(3, u128)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct R3(u32);
#[decimal(0)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct N8(u8);
#[decimal(38)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct Z38(u128);

/// outcome of one call: a value, an error value, or an abort
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Val(B),
    Error,
    Abort,
}

const BIN: [&str; 15] = [
    "mul", "mul_up", "div", "div_up", "big_mul", "big_mul_up", "big_div", "big_div_up", "checked_big_div", "big_mul_to_value",
    "big_mul_to_value_up", "from_decimal", "checked_from_decimal", "from_decimal_up", "checked_from_decimal_to_value",
];
const UN: [&str; 21] = [
    "add", "sub", "checked_add", "checked_sub", "checked_div", "sub_abs", "big_div_by_number", "big_div_by_number_up",
    "checked_big_div_by_number", "checked_big_div_by_number_up", "from_integer", "from_scale", "checked_from_scale", "from_scale_up",
    "checked_from_scale_to_value", "add_assign", "sub_assign", "mul_assign", "div_assign", "display", "is_zero",
];

struct Pair {
    name: &'static str,
    sa: u32,
    ma: u128,
    sb: u32,
    mb: u128,
    big: u32,
    f: fn(usize, u128, u128) -> Out,
}
struct Single {
    name: &'static str,
    sa: u32,
    ma: u128,
    big: u32,
    f: fn(usize, u128, u128, B, u8) -> Out,
}

fn ev_<T>(r: Result<T, String>, f: impl FnOnce(T) -> B) -> Out {
    match r {
        Ok(x) => Out::Val(f(x)),
        Err(_) => Out::Error,
    }
}

macro_rules! pair {
    ($v:ident, $A:ident, $ua:ty, $big:ty, $bits:expr, $B:ident, $ub:ty) => {{
        fn f(op: usize, a: u128, z: u128) -> Out {
            let x = $A::new(a as $ua);
            let y = $B::new(z as $ub);
            let w = |d: $A| Out::Val(b(d.get() as u128));
            match op {
                0 => w(x * y),
                1 => w(x.mul_up(y)),
                2 => w(x / y),
                3 => w(x.div_up(y)),
                4 => w(x.big_mul(y)),
                5 => w(x.big_mul_up(y)),
                6 => w(x.big_div(y)),
                7 => w(x.big_div_up(y)),
                8 => ev_(x.checked_big_div(y), |d| b(d.get() as u128)),
                9 => Out::Val({ let v: $big = x.big_mul_to_value(y); v.to_b() }),
                10 => Out::Val({ let v: $big = x.big_mul_to_value_up(y); v.to_b() }),
                11 => w($A::from_decimal(y)),
                12 => ev_(<$A as BetweenDecimals<$B>>::checked_from_decimal(y), |d| b(d.get() as u128)),
                13 => w($A::from_decimal_up(y)),
                _ => ev_(<$A as BetweenDecimalsToValue<$B, $big>>::checked_from_decimal_to_value(y), |d: $big| d.to_b()),
            }
        }
        $v.push(Pair {
            name: concat!(stringify!($A), " and ", stringify!($B)),
            sa: $A::scale() as u32,
            ma: <$ua>::MAX as u128,
            sb: $B::scale() as u32,
            mb: <$ub>::MAX as u128,
            big: $bits,
            f,
        });
    }};
}
macro_rules! row {
    ($v:ident, $A:ident, $ua:ty, $big:ty, $bits:expr) => {
        pair!($v, $A, $ua, $big, $bits, TokenAmount, u128);
        pair!($v, $A, $ua, $big, $bits, Liquidity, u128);
        pair!($v, $A, $ua, $big, $bits, Percentage, u64);
        pair!($v, $A, $ua, $big, $bits, FixedPoint, u128);
        pair!($v, $A, $ua, $big, $bits, SqrtPrice, u128);
        pair!($v, $A, $ua, $big, $bits, FeeGrowth, u128);
        pair!($v, $A, $ua, $big, $bits, SecondsPerLiquidity, u128);
        pair!($v, $A, $ua, $big, $bits, R3, u32);
        pair!($v, $A, $ua, $big, $bits, N8, u8);
        pair!($v, $A, $ua, $big, $bits, Z38, u128);
    };
}
macro_rules! single {
    ($v:ident, $A:ident, $ua:ty, $big:ty, $bits:expr) => {{
        fn f(op: usize, a: u128, z: u128, n: B, sc: u8) -> Out {
            let x = $A::new(a as $ua);
            let y = $A::new(z as $ua);
            let m: $big = <$big as ToB>::from_b(n);
            let w = |d: $A| Out::Val(b(d.get() as u128));
            let c = |d: Result<$A, String>| ev_(d, |d| b(d.get() as u128));
            let mut q = x;
            match op {
                0 => w(x + y),
                1 => w(x - y),
                2 => c(CheckedOps::checked_add(x, y)),
                3 => c(CheckedOps::checked_sub(x, y)),
                4 => c(CheckedOps::checked_div(x, y)),
                5 => w(x.sub_abs(y)),
                6 => w(x.big_div_by_number(m)),
                7 => w(x.big_div_by_number_up(m)),
                8 => c(x.checked_big_div_by_number(m)),
                9 => c(x.checked_big_div_by_number_up(m)),
                10 => w($A::from_integer(z)),
                11 => w($A::from_scale(z, sc)),
                12 => c($A::checked_from_scale(z, sc)),
                13 => w($A::from_scale_up(z, sc)),
                14 => ev_(<$A as FactoriesToValue<u128, $big>>::checked_from_scale_to_value(z, sc), |d: $big| d.to_b()),
                15 => { q += y; w(q) }
                16 => { q -= y; w(q) }
                17 => { q *= y; w(q) }
                18 => { q /= y; w(q) }
                19 => {
                    // the printed form read back as a number
                    let s = format!("{}", x);
                    let (int, frac) = s.split_once('.').unwrap_or((&s, ""));
                    if frac.len() > 60 || !s.bytes().all(|c| c.is_ascii_digit() || c == b'.') {
                        return Out::Error;
                    }
                    match B::from_dec_str(&format!("{}{}", int, frac)) {
                        Ok(v) => {
                            let (n, d) = (v * p10($A::scale() as u32), p10(frac.len() as u32));
                            if (n % d).is_zero() { Out::Val(n / d) } else { Out::Error }
                        }
                        Err(_) => Out::Error,
                    }
                }
                _ => Out::Val(b(x.is_zero() as u128)),
            }
        }
        $v.push(Single { name: stringify!($A), sa: $A::scale() as u32, ma: <$ua>::MAX as u128, big: $bits, f });
    }};
}

fn pairs() -> &'static Vec<Pair> {
    static P: OnceLock<Vec<Pair>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        row!(v, TokenAmount, u128, U256, 256);
        row!(v, Liquidity, u128, U256, 256);
        row!(v, Percentage, u64, U256, 256);
        row!(v, FixedPoint, u128, U256, 256);
        row!(v, SqrtPrice, u128, U256, 256);
        row!(v, FeeGrowth, u128, U256, 256);
        row!(v, SecondsPerLiquidity, u128, U256, 256);
        row!(v, R3, u32, u128, 128);
        row!(v, N8, u8, U256, 256);
        row!(v, Z38, u128, U256, 256);
        v
    })
}
fn singles() -> &'static Vec<Single> {
    static P: OnceLock<Vec<Single>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        single!(v, TokenAmount, u128, U256, 256);
        single!(v, Liquidity, u128, U256, 256);
        single!(v, Percentage, u64, U256, 256);
        single!(v, FixedPoint, u128, U256, 256);
        single!(v, SqrtPrice, u128, U256, 256);
        single!(v, FeeGrowth, u128, U256, 256);
        single!(v, SecondsPerLiquidity, u128, U256, 256);
        single!(v, R3, u32, u128, 128);
        single!(v, N8, u8, U256, 256);
        single!(v, Z38, u128, U256, 256);
        v
    })
}

/// expected value (None: there is none that fits) and whether a result is owed
fn judge(what: &str, got: &Out, want: Option<B>, owed: bool, checked: bool) -> V {
    match (got, want) {
        (Out::Val(v), Some(w)) if *v == w => Ok(()),
        (Out::Val(v), Some(w)) => Err(format!("{} = {}, exactly {}", what, v, w)),
        (Out::Val(v), None) => Err(format!("{} = {}, but no representable result exists", what, v)),
        (Out::Abort, _) if checked => Err(format!("{} aborted instead of reporting an error", what)),
        (_, Some(w)) if owed => Err(format!("{} refused, exactly {}", what, w)),
        _ => Ok(()),
    }
}

fn call(f: impl FnOnce() -> Out) -> Out {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(Out::Abort)
}

fn fits(x: B, max: u128) -> Option<B> {
    if x <= b(max) {
        Some(x)
    } else {
        None
    }
}

pub fn c20(seed: u64, case: u64, ev: &mut Ev) -> V {
    let mut r = Rng::new(Rng::derive(seed, case));
    let r = &mut r;
    for p in pairs() {
        let one = p10(p.sb);
        let bigmax = (B::from(1u8) << p.big as usize) - b(1);
        let a = val(r, p.ma);
        // second operands at the boundaries of this pair's operations
        let mut z = val(r, p.mb);
        if a > 0 {
            let t = match r.below(10) {
                0 => b(p.ma) / b(a),                       // product at the edge of the plain type
                1 => b(p.ma) * one / b(a),                 // big product at the edge of the result
                2 => b(a) * one / b(p.ma),                 // big quotient at the edge
                3 => one * b(1 + r.below(50) as u128) / b(a), // product at a rounding edge
                4 => b(a) * one / b(1 + r.below(1000) as u128),
                5 => b(a),
                _ => b(z),
            };
            z = near(r, clip(t, p.mb)).min(p.mb);
        }
        let (pa, pz) = (b(a), b(z));
        let one_fits = one <= b(p.ma);
        let z_fits = z <= p.ma;
        for (op, name) in BIN.iter().enumerate() {
            if op < 4 && !r.chance(1, 2) {
                continue;
            }
            let got = call(|| (p.f)(op, a, z));
            let (want, owed, checked) = match op {
                0 => (fits(pa * pz / one, p.ma), one_fits && z_fits && pa * pz <= b(p.ma), false),
                1 => (fits(div_up(pa * pz, one), p.ma), one_fits && z_fits && pa * pz + one - b(1) <= b(p.ma), false),
                2 | 3 | 6 | 7 | 8 => {
                    if z == 0 {
                        (None, false, op == 8)
                    } else {
                        let up = op == 3 || op == 7;
                        let q = if up { div_up(pa * one, pz) } else { pa * one / pz };
                        let add = if up { pz - b(1) } else { b(0) };
                        let owed = if op < 4 {
                            one_fits && z_fits && pa * one + add <= b(p.ma)
                        } else {
                            one <= bigmax && pa * one + add <= bigmax
                        };
                        (fits(q, p.ma), owed, op == 8)
                    }
                }
                4 => (fits(pa * pz / one, p.ma), pa * pz <= bigmax, false),
                5 => (fits(div_up(pa * pz, one), p.ma), pa * pz + one - b(1) <= bigmax, false),
                9 => (Some(pa * pz / one), pa * pz <= bigmax, false),
                10 => (Some(div_up(pa * pz, one)), pa * pz + one - b(1) <= bigmax, false),
                11 | 12 | 13 => {
                    if p.sa > p.sb {
                        let m = p10(p.sa - p.sb);
                        (fits(pz * m, p.ma), m <= b(p.ma), op == 12)
                    } else {
                        let m = p10(p.sb - p.sa);
                        if op == 13 {
                            (fits(div_up(pz, m), p.ma), pz + m - b(1) <= b(p.mb), false)
                        } else {
                            (fits(pz / m, p.ma), m <= b(p.mb), op == 12)
                        }
                    }
                }
                _ => {
                    if p.sa > p.sb {
                        let w = pz * p10(p.sa - p.sb);
                        (if w <= bigmax { Some(w) } else { None }, z_fits, true)
                    } else {
                        (Some(pz / p10(p.sb - p.sa)), z_fits, true)
                    }
                }
            };
            judge(&format!("{} on {} with {} and {}", name, p.name, a, z), &got, want, owed, checked)?;
            ev.seen((op, p.name, a, z), a > 0 && z > 0, || format!("{} on {} with {} and {}: {:?}", name, p.name, a, z, got));
        }
    }
    for p in singles() {
        let one = p10(p.sa);
        let bigmax = (B::from(1u8) << p.big as usize) - b(1);
        for round in 0..3 {
            let a = val(r, p.ma);
            let z = match r.below(6) {
                0 => near(r, p.ma - a).min(p.ma),
                1 => near(r, a).min(p.ma),
                2 if a > 0 => near(r, clip(b(p.ma) / one, p.ma)).min(p.ma),
                3 if a > 0 => near(r, clip(b(a) * one / b(p.ma), p.ma)).min(p.ma),
                _ => val(r, p.ma),
            };
            // third operand: a wide number
            let n = match r.below(8) {
                0 => b(0),
                1 => bigmax,
                2 => bigmax - b(r.below(1000) as u128),
                3 => b(a) * one + b(r.below(3) as u128),
                4 => b(a) * one / b(p.ma) + b(r.below(2) as u128),
                5 => b(r.u128()) << r.below(129) as usize,
                _ => b(val(r, u128::MAX)),
            } & bigmax;
            let sc = match r.below(4) {
                0 => p.sa as u8,
                1 => (p.sa as i64 + r.range(-3, 3)).clamp(0, 255) as u8,
                2 => r.below(60) as u8,
                _ => r.below(39) as u8,
            };
            let zi = if r.chance(1, 3) { val(r, u128::MAX) } else { z };
            let (pa, pz) = (b(a), b(z));
            for (op, name) in UN.iter().enumerate() {
                if op >= 19 && round > 0 {
                    continue;
                }
                let zz = if (10..=14).contains(&op) { zi } else { z };
                let pzz = b(zz);
                let got = call(|| (p.f)(op, a, zz, n, sc));
                let checked = name.starts_with("checked");
                let (want, owed) = match op {
                    0 | 2 | 15 => (fits(pa + pz, p.ma), true),
                    1 | 3 | 16 => (if a >= z { Some(pa - pz) } else { None }, true),
                    4 | 18 => {
                        if z == 0 {
                            (None, false)
                        } else {
                            (fits(pa * one / pz, p.ma), one <= b(p.ma) && pa * one <= b(p.ma))
                        }
                    }
                    5 => (Some(if a > z { pa - pz } else { pz - pa }), true),
                    6..=9 => {
                        if n.is_zero() {
                            (None, false)
                        } else if op == 7 || op == 9 {
                            (fits(div_up(pa * one, n), p.ma), pa * one + n - b(1) <= bigmax)
                        } else {
                            (fits(pa * one / n, p.ma), pa * one <= bigmax)
                        }
                    }
                    10 => (fits(pzz * one, p.ma), one <= b(p.ma)),
                    11..=13 => {
                        if p.sa > sc as u32 {
                            let m = p10(p.sa - sc as u32);
                            (fits(pzz * m, p.ma), m <= b(p.ma))
                        } else {
                            let m = p10(sc as u32 - p.sa);
                            if op == 13 {
                                (fits(div_up(pzz, m), p.ma), pzz + m - b(1) <= b(u128::MAX))
                            } else {
                                (fits(pzz / m, p.ma), m <= b(u128::MAX))
                            }
                        }
                    }
                    14 => {
                        if p.sa > sc as u32 {
                            let w = pzz * p10(p.sa - sc as u32);
                            (if w <= bigmax { Some(w) } else { None }, zz <= p.ma)
                        } else {
                            let m = p10(sc as u32 - p.sa);
                            (Some(pzz / m), zz <= p.ma && m <= b(u128::MAX))
                        }
                    }
                    17 => (fits(pa * pz / one, p.ma), one <= b(p.ma) && pa * pz <= b(p.ma)),
                    19 => (Some(pa), true),
                    _ => (Some(b((a == 0) as u128)), true),
                };
                judge(&format!("{}::{} with {}, {}, number {}, scale {}", p.name, name, a, zz, n, sc), &got, want, owed, checked)?;
                ev.seen((op, p.name, a, zz, n.low_u128(), sc), a > 0 && z > 0, || format!("{}::{} with {}, {}: {:?}", p.name, name, a, zz, got));
            }
        }
    }
    wide(r, ev)
}

/// the wide-number helpers and fee growth
fn wide(r: &mut Rng, ev: &mut Ev) -> V {
    let e24 = p10(24);
    let max256 = (B::from(1u8) << 256) - b(1);
    for _ in 0..40 {
        let any = |r: &mut Rng| -> B {
            match r.below(6) {
                0 => max256 - b(r.below(5) as u128),
                1 => (B::from(1u8) << r.below(256) as usize) - b(r.below(2) as u128),
                2 => b(val(r, u128::MAX)) * e24 + b(r.below(3) as u128),
                3 => (b(val(r, u128::MAX)) * e24).saturating_sub(b(r.below(3) as u128)),
                4 => b(val(r, u128::MAX)) * b(val(r, u128::MAX)),
                _ => b(val(r, u128::MAX)),
            }
        };
        let n = any(r);
        let d = match r.below(5) {
            0 => n / b(u128::MAX) + b(r.below(3) as u128),
            1 => b(r.below(10) as u128),
            2 => n,
            _ => any(r),
        };
        let (un, ud) = (U256::from_b(n), U256::from_b(d));
        let o = |x: Result<u128, bool>| match x {
            Ok(v) => Out::Val(b(v)),
            Err(_) => Out::Error,
        };
        let z = d.is_zero();
        let t = b(1) << 224usize;
        // (name, outcome, exact value, owed, must not abort)
        let fl = if z { None } else { Some(n / d) };
        let cl = if z { None } else { Some(div_up(n, d)) };
        let fp = if z { None } else { Some(n * e24 / d) };
        let cp = if z { None } else { Some(div_up(n * e24, d)) };
        let f128 = |x: Option<B>| x.and_then(|x| fits(x, u128::MAX));
        let cases: Vec<(&str, Out, Option<B>, bool, bool)> = vec![
            ("big_div_values_to_token", call(|| o(SqrtPrice::big_div_values_to_token(un, ud).map(|x| x.get()).map_err(|_| true))), f128(fl), !z && n < t, true),
            ("big_div_values_to_token_up", call(|| o(SqrtPrice::big_div_values_to_token_up(un, ud).map(|x| x.get()).map_err(|_| true))), f128(cl), !z && n < t, false),
            ("big_div_values_up", call(|| Out::Val(b(SqrtPrice::big_div_values_up(un, ud).get()))), f128(cp), !z && n * e24 + d - b(!z as u128) <= max256, false),
            ("checked_big_div_values", call(|| o(SqrtPrice::checked_big_div_values(un, ud).map(|x| x.get()).map_err(|_| true))), f128(fp), !z && n * e24 <= max256, true),
            ("checked_big_div_values_up", call(|| o(SqrtPrice::checked_big_div_values_up(un, ud).map(|x| x.get()).map_err(|_| true))), f128(cp), !z && n < (b(1) << 240usize), true),
            ("from_big_sqrt_price", call(|| o(TokenAmount::from_big_sqrt_price(un).map(|x| x.get()).map_err(|_| true))), fits(n / e24, u128::MAX), true, true),
            ("from_big_sqrt_price_up", call(|| o(TokenAmount::from_big_sqrt_price_up(un).map(|x| x.get()).map_err(|_| true))), fits(div_up(n, e24), u128::MAX), true, true),
            ("u256_to_u320", call(|| Out::Val(u256_to_u320(un).to_b())), Some(n), true, true),
        ];
        for (name, got, want, owed, checked) in cases {
            judge(&format!("{} of {} and {}", name, n, d), &got, want, owed, checked)?;
            ev.seen((name, n.low_u128(), d.low_u128()), !z && !n.is_zero(), || format!("{} of {} and {}: {:?}", name, n, d, got));
        }
        let big = n * (if r.chance(1, 2) { b(1) } else { b(r.next() as u128) });
        let big = big & ((B::from(1u8) << 320) - b(1));
        let got = call(|| match checked_u320_to_u256(U320::from_b(big)) {
            Some(x) => Out::Val(x.to_b()),
            None => Out::Error,
        });
        judge(&format!("narrowing {}", big), &got, if big <= max256 { Some(big) } else { None }, true, true)?;
        let q = val(r, u128::MAX);
        judge(&format!("widening {}", q), &call(|| Out::Val(to_u256(q).to_b())), Some(b(q)), true, true)?;

        // fee growth
        let (l, f, g, h) = (val(r, u128::MAX), val(r, u128::MAX), val(r, u128::MAX), val(r, u128::MAX));
        let f = if r.chance(1, 3) { near(r, clip(b(u128::MAX) * b(l) / p10(34), u128::MAX)) } else { f };
        let want = if l == 0 { None } else { fits(b(f) * p10(34) / b(l), u128::MAX) };
        let owed = b(f) * p10(34) <= max256;
        judge(&format!("FeeGrowth::from_fee liquidity {} fee {}", l, f), &call(|| o(FeeGrowth::from_fee(Liquidity(l), TokenAmount(f)).map(|x| x.get()).map_err(|_| true))), want, owed, true)?;
        let g2 = if r.chance(1, 3) && l > 0 { near(r, clip(b(u128::MAX) * p10(34) / b(l), u128::MAX)) } else { g };
        judge(&format!("FeeGrowth {} to_fee liquidity {}", g2, l), &call(|| o(FeeGrowth(g2).to_fee(Liquidity(l)).map(|x| x.get()).map_err(|_| true))), fits(b(g2) * b(l) / p10(34), u128::MAX), true, true)?;
        let w = B::from(1u8) << 128;
        judge(&format!("FeeGrowth {} unchecked_add {}", g, h), &call(|| Out::Val(b(FeeGrowth(g).unchecked_add(FeeGrowth(h)).get()))), Some((b(g) + b(h)) % w), true, true)?;
        judge(&format!("FeeGrowth {} unchecked_sub {}", g, h), &call(|| Out::Val(b(FeeGrowth(g).unchecked_sub(FeeGrowth(h)).get()))), Some((b(g) + w - b(h)) % w), true, true)?;
        judge(&format!("SecondsPerLiquidity {} unchecked_sub {}", g, h), &call(|| Out::Val(b(SecondsPerLiquidity(g).unchecked_sub(SecondsPerLiquidity(h)).get()))), Some((b(g) + w - b(h)) % w), true, true)?;
        judge(&format!("SecondsPerLiquidity {} unchecked_add {}", g, h), &call(|| Out::Val(b(SecondsPerLiquidity(g).unchecked_add(SecondsPerLiquidity(h)).get()))), Some((b(g) + b(h)) % w), true, true)?;
        // growth inside a range: what happened since the two boundaries were initialised, modulo 2^128
        let (lo, hi) = (r.range(-100, 0) as i32, r.range(1, 100) as i32);
        let cur = *r.pick(&[lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0]);
        let (gx, gy) = (r.u128(), val(r, u128::MAX));
        let v: Vec<u128> = (0..4).map(|_| if r.chance(1, 2) { r.u128() } else { val(r, u128::MAX) }).collect();
        let below = |g: u128, o: u128, at: bool| if at { o } else { g.wrapping_sub(o) };
        let inside = |g: u128, a: u128, z: u128| g.wrapping_sub(below(g, a, cur >= lo)).wrapping_sub(below(g, z, cur < hi));
        let got = catch_unwind(AssertUnwindSafe(|| {
            let (x, y) = calculate_fee_growth_inside(lo, FeeGrowth(v[0]), FeeGrowth(v[1]), hi, FeeGrowth(v[2]), FeeGrowth(v[3]), cur, FeeGrowth(gx), FeeGrowth(gy));
            (x.0, y.0)
        }))
        .ok();
        let want = Some((inside(gx, v[0], v[2]), inside(gy, v[1], v[3])));
        if got != want {
            return Err(format!("growth inside [{}, {}) at tick {}: {:?}, expected {:?}", lo, hi, cur, got, want));
        }
    }
    Ok(())
}

