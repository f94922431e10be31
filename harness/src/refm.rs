//! Reference semantics, written from the protocol's published formulas in exact wide arithmetic and
//! driven by the list of open positions (no bitmap, no tick store, no fee-growth-outside trick).
use crate::big::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const MAX_TICK: i32 = 221_818;
pub const MAX_P: u128 = 65535383934512647000000000000;
pub const MIN_P: u128 = 15258932000000000000;
pub const ONE_PCT: u64 = 1_000_000_000_000; // 100 %
pub const E24: u128 = 1_000_000_000_000_000_000_000_000;
pub const E18: u128 = 1_000_000_000_000_000_000;
pub const E6: u128 = 1_000_000;
const SEARCH: i32 = 256;

const FACTORS: [u128; 18] = [
    1000049998750, 1000100000000, 1000200010000, 1000400060004, 1000800280056, 1001601200560,
    1003204964963, 1006420201726, 1012881622442, 1025929181080, 1052530684591, 1107820842005,
    1227267017980, 1506184333421, 2268591246242, 5146506242525, 26486526504348, 701536086265529,
];

fn table() -> &'static Vec<u128> {
    static T: OnceLock<Vec<u128>> = OnceLock::new();
    T.get_or_init(|| {
        let e12 = 1_000_000_000_000u128;
        let mut v = vec![0u128; (2 * MAX_TICK + 1) as usize];
        for t in 0..=MAX_TICK {
            let mut p = e12;
            for (i, f) in FACTORS.iter().enumerate() {
                if t >> i & 1 == 1 {
                    p = p * f / e12;
                }
            }
            v[(MAX_TICK + t) as usize] = p * e12;
            v[(MAX_TICK - t) as usize] = if t == 0 { e12 * e12 } else { e12 * e12 / p * e12 };
        }
        v
    })
}

pub fn price(t: i32) -> u128 {
    table()[(t + MAX_TICK) as usize]
}

pub fn floor_align(t: i32, s: i32) -> i32 {
    t.div_euclid(s) * s
}

/// greatest tick (multiple of spacing) whose price does not exceed p
pub fn tick_at(p: u128, spacing: u16) -> Option<i32> {
    if p > MAX_P || p < MIN_P {
        return None;
    }
    let t = table();
    let i = t.partition_point(|x| *x <= p);
    if i == 0 {
        return None;
    }
    Some(floor_align(i as i32 - 1 - MAX_TICK, spacing as i32))
}

pub fn max_tick(s: u16) -> i32 {
    MAX_TICK / s as i32 * s as i32
}
pub fn min_tick(s: u16) -> i32 {
    -max_tick(s)
}
pub fn max_liq_per_tick(s: u16) -> u128 {
    u128::MAX / ((2 * MAX_TICK as u128 + 1) / s as u128)
}
pub fn valid_tick(t: i32, s: u16) -> bool {
    t % s as i32 == 0 && t <= max_tick(s) && t >= min_tick(s)
}
pub fn price_fits_tick(t: i32, s: u16, p: u128) -> bool {
    if t + s as i32 > MAX_TICK {
        p == price(max_tick(s))
    } else {
        p >= price(t) && p < price(t + s as i32)
    }
}

pub type E = &'static str;
fn c(x: B) -> Result<u128, E> {
    to128(x).ok_or("cast")
}
fn two256() -> B {
    B::from(1u8) << 256
}

pub fn delta_x(a: u128, z: u128, l: u128, up: bool) -> Result<u128, E> {
    let d = if a > z { a - z } else { z - a };
    let nom = b(d) * b(l) / b(E6);
    let e24 = b(E24);
    if up {
        let den = b(a) * b(z) / e24;
        let i = div_up(nom * e24, den);
        if i >= two256() {
            return Err("u256");
        }
        c(div_up(i, e24))
    } else {
        let den = div_up(b(a) * b(z), e24);
        let i = nom * e24 / den;
        if i >= two256() {
            return Err("u256");
        }
        c(i / e24)
    }
}
pub fn delta_y(a: u128, z: u128, l: u128, up: bool) -> Result<u128, E> {
    let d = if a > z { a - z } else { z - a };
    let e24 = b(E24);
    if up {
        c(div_up(div_up(b(d) * b(l), b(E6)), e24))
    } else {
        c(b(d) * b(l) / b(E6) / e24)
    }
}
pub fn next_x(p: u128, l: u128, x: u128, add: bool) -> Result<u128, E> {
    if x == 0 {
        return Ok(p);
    }
    let pd = b(l) * b(E18);
    let px = b(p) * b(x);
    let den = if add {
        pd + px
    } else {
        if px > pd {
            return Err("den");
        }
        pd - px
    };
    if den.is_zero() {
        return Err("den0");
    }
    c(div_up(div_up(b(p) * b(l), b(E6)) * b(E24), den))
}
pub fn next_y(p: u128, l: u128, y: u128, add: bool) -> Result<u128, E> {
    let num = b(y) * b(E24);
    let den = b(l) * b(E18);
    if add {
        let n = num * b(E24);
        if n >= two256() {
            return Err("mul");
        }
        p.checked_add(c(n / den)?).ok_or("add")
    } else {
        p.checked_sub(c(div_up(num * b(E24), den))?).ok_or("sub")
    }
}
pub fn next_in(p: u128, l: u128, a: u128, x_to_y: bool) -> Result<u128, E> {
    if x_to_y { next_x(p, l, a, true) } else { next_y(p, l, a, true) }
}
pub fn next_out(p: u128, l: u128, a: u128, x_to_y: bool) -> Result<u128, E> {
    if x_to_y { next_y(p, l, a, false) } else { next_x(p, l, a, false) }
}
pub fn mul_pct(a: u128, pct: u64) -> u128 {
    (b(a) * b(pct as u128) / b(ONE_PCT as u128)).as_u128()
}
pub fn mul_pct_up(a: u128, pct: u64) -> u128 {
    div_up(b(a) * b(pct as u128), b(ONE_PCT as u128)).as_u128()
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct StepRes {
    pub next: u128,
    pub ain: u128,
    pub aout: u128,
    pub fee: u128,
}

pub fn step(cur: u128, target: u128, l: u128, amount: u128, by_in: bool, fee: u64) -> Result<StepRes, E> {
    if l == 0 {
        return Ok(StepRes { next: target, ain: 0, aout: 0, fee: 0 });
    }
    let xy = cur >= target;
    let next;
    let reach;
    if by_in {
        let net = mul_pct(amount, ONE_PCT - fee);
        reach = if xy { delta_x(target, cur, l, true)? } else { delta_y(cur, target, l, true)? };
        next = if net >= reach {
            target
        } else {
            let n = next_in(cur, l, net, xy)?;
            if xy && n <= target {
                // the rounded-up requirement is not quite met, but the price is reached
                let fee = mul_pct_up(net, fee);
                return Ok(StepRes { next: target, ain: net, aout: delta_y(target, cur, l, false)?, fee });
            }
            n
        };
    } else {
        reach = if xy { delta_y(target, cur, l, false)? } else { delta_x(cur, target, l, false)? };
        next = if amount >= reach { target } else { next_out(cur, l, amount, xy)? };
    }
    let (mut ain, mut aout) = if xy {
        (delta_x(next, cur, l, true)?, delta_y(next, cur, l, false)?)
    } else {
        (delta_y(cur, next, l, true)?, delta_x(cur, next, l, false)?)
    };
    if !by_in && aout > amount {
        aout = amount;
    }
    if by_in && ain > amount {
        ain = amount;
    }
    let f = if by_in && next != target { amount - ain } else { mul_pct_up(ain, fee) };
    Ok(StepRes { next, ain, aout, fee: f })
}

/// Does the remaining amount move the price at all (used when the price sits exactly on a tick).
pub fn moves_price(amount: u128, p: u128, l: u128, fee: u64, by_in: bool, xy: bool) -> bool {
    if l == 0 {
        return true;
    }
    let n = if by_in { next_in(p, l, mul_pct(amount, ONE_PCT - fee), xy) } else { next_out(p, l, amount, xy) };
    match n {
        Ok(n) => n != p,
        Err(_) => true,
    }
}

pub fn amount_delta(cur: i32, p: u128, l: u128, up: bool, lo: i32, hi: i32) -> Result<(u128, u128), E> {
    if cur < lo {
        Ok((delta_x(price(lo), price(hi), l, up)?, 0))
    } else if cur < hi {
        Ok((delta_x(p, price(hi), l, up)?, delta_y(price(lo), p, l, up)?))
    } else {
        Ok((0, delta_y(price(lo), price(hi), l, up)?))
    }
}

#[derive(Clone, Debug, Default)]
pub struct PoolM {
    pub price: u128,
    pub tick: i32,
    pub spacing: u16,
    pub fee: u64,
    /// open ranges: (lower, upper, liquidity)
    pub pos: Vec<(i32, i32, u128)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FeeEvent {
    /// current tick when the fee was credited: ranges with lower <= tick < upper earn it
    pub tick: i32,
    pub liq: u128,
    pub fee: u128,
    pub protocol: u128,
    /// growth per unit of liquidity, scale 28
    pub growth: u128,
}

#[derive(Clone, Debug, Default)]
pub struct SwapM {
    pub ain: u128,
    pub aout: u128,
    pub fee_total: u128,
    /// part of the fee that was left over at a tick it could not pass
    pub leftover: u128,
    pub price: u128,
    pub tick: i32,
    pub liq: u128,
    pub fees: Vec<FeeEvent>,
    pub crossed: Vec<i32>,
    pub segs: Vec<(u128, u128, u128)>,
    pub steps: u32,
    pub uninit_stops: u32,
}

impl PoolM {
    pub fn active(&self, tick: i32) -> B {
        let mut s = B::zero();
        for (lo, hi, l) in &self.pos {
            if *lo <= tick && tick < *hi {
                s = s + b(*l);
            }
        }
        s
    }
    pub fn ticks(&self) -> BTreeMap<i32, (u128, u128)> {
        let mut m: BTreeMap<i32, (u128, u128)> = BTreeMap::new();
        for (lo, hi, l) in &self.pos {
            let e = m.entry(*lo).or_default();
            e.0 = e.0.saturating_add(*l);
            let e = m.entry(*hi).or_default();
            e.1 = e.1.saturating_add(*l);
        }
        m
    }

    pub fn swap(&self, xy: bool, amount: u128, by_in: bool, limit: u128, protocol: u64) -> Result<SwapM, E> {
        if amount == 0 {
            return Err("AmountIsZero");
        }
        if xy {
            if self.price <= limit || limit > MAX_P {
                return Err("WrongLimit");
            }
        } else if self.price >= limit || limit < MIN_P {
            return Err("WrongLimit");
        }
        let s = self.spacing as i32;
        let ticks = self.ticks();
        let mut r = SwapM { price: self.price, tick: self.tick, ..Default::default() };
        let mut liq = to128(self.active(self.tick)).ok_or("liq")?;
        let mut rem = amount;
        let bound = if xy { min_tick(self.spacing) } else { max_tick(self.spacing) };

        let credit = |r: &mut SwapM, liq: u128, fee: u128, tick: i32| -> Result<(), E> {
            let pr = mul_pct_up(fee, protocol);
            let pf = fee.checked_sub(pr).ok_or("protocol")?;
            if (pf == 0 && pr == 0) || liq == 0 {
                return Ok(());
            }
            let growth = c(b(pf) * p10(34) / b(liq)).map_err(|_| "growth")?;
            r.fees.push(FeeEvent { tick, liq, fee, protocol: pr, growth });
            Ok(())
        };

        while rem > 0 {
            r.steps += 1;
            if r.steps > 100_000 {
                return Err("loop");
            }
            // nearest initialised tick in the direction of trade within the search window
            let unit = r.tick / s;
            let (cand, edge) = if xy {
                let e = (unit - SEARCH).max(-MAX_TICK / s) * s;
                (ticks.range(e.min(r.tick)..=r.tick).next_back().map(|x| *x.0), e)
            } else {
                let e = (unit + SEARCH).min(MAX_TICK / s) * s;
                (if r.tick + s > e { None } else { ticks.range(r.tick + s..=e).next().map(|x| *x.0) }, e)
            };
            let (t, init) = match cand {
                Some(t) => (t, true),
                None => {
                    if r.tick == edge {
                        return Err("TickLimitReached");
                    }
                    (edge, false)
                }
            };
            let tp = price(t);
            // a tick exactly at the limit is passed when moving up (it belongs to the range above)
            let (target, stop) = if (xy && tp > limit) || (!xy && tp <= limit) { (tp, Some((t, init))) } else { (limit, None) };
            let st = step(r.price, target, liq, rem, by_in, self.fee)?;
            rem = if by_in {
                rem.checked_sub(st.ain.checked_add(st.fee).ok_or("add")?).ok_or("sub")?
            } else {
                rem.checked_sub(st.aout).ok_or("sub")?
            };
            let tk = r.tick;
            credit(&mut r, liq, st.fee, tk)?;
            r.fee_total += st.fee;
            r.segs.push((r.price, st.next, liq));
            r.price = st.next;
            r.ain = r.ain.checked_add(st.ain + st.fee).ok_or("add")?;
            r.aout = r.aout.checked_add(st.aout).ok_or("add")?;
            if r.price == limit && rem > 0 {
                return Err("PriceLimitReached");
            }
            match stop {
                Some((t, init)) if target == st.next => {
                    let enough = moves_price(rem, r.price, liq, self.fee, by_in, xy);
                    if init {
                        if !xy || enough {
                            let (lo, hi) = ticks[&t];
                            let (plus, minus) = if xy { (hi, lo) } else { (lo, hi) };
                            liq = to128(b(liq) + b(plus)).ok_or("liq")?.checked_sub(minus).ok_or("liq")?;
                            r.crossed.push(t);
                        } else if rem > 0 {
                            if by_in {
                                credit(&mut r, liq, rem, tk)?;
                                r.ain = r.ain.checked_add(rem).ok_or("add")?;
                                r.fee_total += rem;
                                r.leftover += rem;
                            }
                            rem = 0;
                        }
                    } else {
                        r.uninit_stops += 1;
                    }
                    r.tick = if xy && enough { t - s } else { t };
                }
                _ => {
                    // a tick that has been crossed stays crossed even if the price has not left it
                    let at = tick_at(r.price, self.spacing).ok_or("range")?;
                    r.tick = if xy { at.min(r.tick) } else { at };
                }
            }
            if (xy && r.tick <= bound) || (!xy && r.tick >= bound) {
                return Err("TickLimitReached");
            }
        }
        if r.aout == 0 {
            return Err("NoGainSwap");
        }
        r.liq = liq;
        Ok(r)
    }
}

/// Exact value of a range at a price, in token units scaled by 10^12 and rounded down: (x, y).
pub fn value_scaled(p: u128, l: u128, lo: i32, hi: i32) -> (B, B) {
    let (pa, pb) = (price(lo), price(hi));
    let p = p.clamp(pa, pb);
    let e12 = p10(12);
    // x = L/1e6 * (pb - p)/(p*pb) * 1e24
    let x = b(l) * b(pb - p) * b(E24) * e12 / (b(p) * b(pb) * b(E6));
    let y = b(l) * b(p - pa) * e12 / (b(E24) * b(E6));
    (x, y)
}

impl PoolM {
    /// Amounts (input including fee, output, fee) needed to push the price exactly to `stop`.
    pub fn path(&self, xy: bool, stop: u128) -> Option<(u128, u128, u128)> {
        let s = self.spacing as i32;
        let ticks = self.ticks();
        let (mut p, mut tick) = (self.price, self.tick);
        let mut liq = to128(self.active(tick))?;
        let (mut ain, mut aout, mut fees) = (0u128, 0u128, 0u128);
        for _ in 0..3000 {
            if p == stop {
                return Some((ain, aout, fees));
            }
            let unit = tick / s;
            let (cand, edge) = if xy {
                let e = (unit - SEARCH).max(-MAX_TICK / s) * s;
                (ticks.range(e.min(tick)..=tick).next_back().map(|x| *x.0), e)
            } else {
                let e = (unit + SEARCH).min(MAX_TICK / s) * s;
                (if tick + s > e { None } else { ticks.range(tick + s..=e).next().map(|x| *x.0) }, e)
            };
            let (t, init) = match cand {
                Some(t) => (t, true),
                None if tick == edge => return None,
                None => (edge, false),
            };
            let tp = price(t);
            let target = if xy { tp.max(stop) } else { tp.min(stop) };
            let st = step(p, target, liq, u128::MAX / 4, false, self.fee).ok()?;
            if st.next != target {
                return None;
            }
            ain = ain.checked_add(st.ain)?.checked_add(st.fee)?;
            aout = aout.checked_add(st.aout)?;
            fees = fees.checked_add(st.fee)?;
            p = target;
            if p == tp && p != stop {
                if init {
                    let (lo, hi) = ticks[&t];
                    let (plus, minus) = if xy { (hi, lo) } else { (lo, hi) };
                    liq = liq.checked_add(plus)?.checked_sub(minus)?;
                }
                tick = if xy { t - s } else { t };
            }
        }
        None
    }
}
