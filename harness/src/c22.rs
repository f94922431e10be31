//! Liquidity-from-amount helpers.
use crate::big::*;
use crate::mon::Ev;
use crate::pure::*;
use crate::refm;
use crate::rng::Rng;
use decimal::Decimal;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;

/// (amount, lower, upper, price, round up) -> (liquidity, other amount)
pub type ByOne = Box<dyn Fn(u128, i32, i32, u128, bool) -> Option<(u128, u128)>>;
/// (x, y, lower, upper, price, round up) -> (x, y, liquidity)
pub type ByBoth = Box<dyn Fn(u128, u128, i32, i32, u128, bool) -> Option<(u128, u128, u128)>>;
pub struct Liq {
    pub by_x: ByOne,
    pub by_y: ByOne,
    pub both: Option<ByBoth>,
}

pub fn contract_liq() -> Liq {
    use oraiswap_v3::logic;
    Liq {
        by_x: Box::new(|x, lo, hi, p, up| tryit(|| logic::get_liquidity_by_x(TokenAmount(x), lo, hi, SqrtPrice::new(p), up).ok()).map(|r| (r.l.0, r.amount.0))),
        by_y: Box::new(|y, lo, hi, p, up| tryit(|| logic::get_liquidity_by_y(TokenAmount(y), lo, hi, SqrtPrice::new(p), up).ok()).map(|r| (r.l.0, r.amount.0))),
        both: Some(Box::new(|x, y, lo, hi, p, up| {
            tryit(|| logic::get_liquidity(TokenAmount(x), TokenAmount(y), lo, hi, SqrtPrice::new(p), up).ok()).map(|r| (r.x.0, r.y.0, r.l.0))
        })),
    }
}

struct Need {
    pa: u128,
    pb: u128,
    p: u128,
}
impl Need {
    fn x(&self, l: u128, up: bool) -> Result<u128, refm::E> {
        let q = self.p.max(self.pa);
        if q >= self.pb {
            return Ok(0);
        }
        refm::delta_x(q, self.pb, l, up)
    }
    fn y(&self, l: u128, up: bool) -> Result<u128, refm::E> {
        let q = self.p.min(self.pb);
        if q <= self.pa {
            return Ok(0);
        }
        refm::delta_y(self.pa, q, l, up)
    }
    /// x rounded down, with the product of the prices rounded down as well (the largest reading of "down")
    fn x_most(&self, l: u128) -> Option<B> {
        let q = self.p.max(self.pa);
        if q >= self.pb {
            return Some(B::zero());
        }
        Some(b(self.pb - q) * b(l) / b(refm::E6) / (b(q) * b(self.pb) / b(refm::E24)))
    }
    /// liquidity one token pays for; None: none or unlimited
    fn lx(&self, x: u128) -> Option<B> {
        let q = self.p.max(self.pa);
        if q >= self.pb {
            return None;
        }
        Some(b(x) * (b(q) * b(self.pb) / b(refm::E24)) * b(refm::E6) / b(self.pb - q))
    }
    fn ly(&self, y: u128) -> Option<B> {
        let q = self.p.min(self.pb);
        if q <= self.pa {
            return None;
        }
        Some(b(y) * b(refm::E24) * b(refm::E6) / b(q - self.pa))
    }
    /// how much more liquidity certainly exceeds the budget of x
    fn kx(&self) -> u128 {
        let q = self.p.max(self.pa);
        2 + div_up(b(refm::E6), b(self.pb - q)).low_u128()
    }
}

fn exceeds(need: Result<u128, refm::E>, budget: u128) -> bool {
    need.map(|n| n > budget).unwrap_or(true)
}

pub fn c22(seed: u64, case: u64, ev: &mut Ev, who: &str, f: &Liq) -> V {
    let mut r = Rng::new(Rng::derive(seed, case));
    let r = &mut r;
    let m = refm::MAX_TICK;
    for _ in 0..60 {
        let s = *r.pick(&[1i32, 1, 1, 2, 10, 100]);
        let mut lo = match r.below(5) {
            0 => -m + r.below(3) as i32,
            1 => r.range(-50, 50) as i32,
            2 => m - 1 - r.below(300) as i32,
            _ => r.range(-m as i64, m as i64) as i32,
        };
        let mut hi = match r.below(5) {
            0 => lo + s,
            1 => lo + r.range(1, 20) as i32,
            2 => m - r.below(3) as i32,
            3 => lo + r.range(1, 40_000) as i32,
            _ => r.range(-m as i64, m as i64) as i32,
        };
        lo = lo.clamp(-m, m);
        hi = hi.clamp(-m, m);
        let bad_ticks = r.chance(1, 20);
        if bad_ticks {
            match r.below(5) {
                0 => lo = -m - 1 - r.below(5) as i32,
                1 => hi = m + 1 + r.below(5) as i32,
                2 => hi = lo,
                3 => std::mem::swap(&mut lo, &mut hi),
                _ => lo = hi + r.below(3) as i32,
            }
        } else if lo > hi {
            std::mem::swap(&mut lo, &mut hi);
        }
        let invalid = lo < -m || hi > m || lo >= hi;
        let pr = |t: i32| refm::price(t.clamp(-m, m));
        let (pa, pb) = (pr(lo), pr(hi));
        let p = match r.below(11) {
            0 => pa,
            1 => pb,
            2 => pa + r.below(3) as u128,
            3 => pb - r.below(3) as u128,
            4 => pa.saturating_sub(1 + r.below(3) as u128),
            5 => pb + 1 + r.below(3) as u128,
            6 => refm::MIN_P + r.below128(refm::MAX_P - refm::MIN_P),
            7 => pr(r.range(-m as i64, m as i64) as i32),
            _ => pa.min(pb) + r.below128(pa.max(pb) - pa.min(pb) + 1),
        }
        .clamp(refm::MIN_P, refm::MAX_P);
        let amount = |r: &mut Rng| match r.below(4) {
            0 => val(r, u128::MAX),
            1 => r.mag(0, 100),
            _ => r.mag(0, 64),
        };
        let (x, y) = (amount(r), amount(r));
        let up = r.chance(1, 2);
        let nd = Need { pa, pb, p };
        let ctx = |k: &str, v: u128| format!("{} {} {} for ticks {}..{} at price {} (rounding up: {})", who, k, v, lo, hi, p, up);
        let other_ok = |got: u128, dn: Result<u128, refm::E>, upv: Result<u128, refm::E>, most: Option<B>| -> bool {
            if up {
                upv == Ok(got)
            } else {
                dn.map(|d| d <= got).unwrap_or(false) && most.map(|u| b(got) <= u).unwrap_or(true)
            }
        };
        // by x
        let got = (f.by_x)(x, lo, hi, p, up);
        let c = ctx("liquidity by x", x);
        match got {
            Some((l, o)) => {
                if invalid {
                    return Err(format!("{}: invalid range accepted, liquidity {}", c, l));
                }
                if p >= pb {
                    return Err(format!("{}: no deposit of x is possible there, but liquidity {}", c, l));
                }
                if exceeds(nd.x(l, true), x) {
                    return Err(format!("{}: liquidity {} needs {:?} of x", c, l, nd.x(l, true)));
                }
                if l.checked_add(nd.kx()).map(|l2| !exceeds(nd.x(l2, true), x)).unwrap_or(false) {
                    return Err(format!("{}: liquidity {}, but the budget allows more", c, l));
                }
                if !other_ok(o, nd.y(l, false), nd.y(l, true), nd.y(l, false).ok().map(b)) {
                    return Err(format!("{}: liquidity {}, reported y {}, needed {:?}", c, l, o, nd.y(l, true)));
                }
                ev.seen((x, lo, hi, p, up), l > 0, || format!("{}: liquidity {}, y {}", c, l, o));
            }
            None => {
                if !invalid && p < pb {
                    if let Some(l) = nd.lx(x).and_then(to128) {
                        if nd.y(l, true).is_ok() {
                            return Err(format!("{}: refused, liquidity {} is affordable", c, l));
                        }
                    }
                }
                ev.seen((x, lo, hi, p, up), false, String::new);
            }
        }
        // by y
        let got = (f.by_y)(y, lo, hi, p, up);
        let c = ctx("liquidity by y", y);
        match got {
            Some((l, o)) => {
                if invalid {
                    return Err(format!("{}: invalid range accepted, liquidity {}", c, l));
                }
                if p <= pa {
                    return Err(format!("{}: no deposit of y is possible there, but liquidity {}", c, l));
                }
                if exceeds(nd.y(l, true), y) {
                    return Err(format!("{}: liquidity {} needs {:?} of y", c, l, nd.y(l, true)));
                }
                if l.checked_add(1).map(|l2| !exceeds(nd.y(l2, true), y)).unwrap_or(false) {
                    return Err(format!("{}: liquidity {}, but the budget allows more", c, l));
                }
                if !other_ok(o, nd.x(l, false), nd.x(l, true), nd.x_most(l)) {
                    return Err(format!("{}: liquidity {}, reported x {}, needed {:?}", c, l, o, nd.x(l, true)));
                }
                ev.seen((y, lo, hi, p, up, 1), l > 0, || format!("{}: liquidity {}, x {}", c, l, o));
            }
            None => {
                if !invalid && p > pa {
                    if let Some(l) = nd.ly(y).and_then(to128) {
                        if nd.x(l, true).is_ok() {
                            return Err(format!("{}: refused, liquidity {} is affordable", c, l));
                        }
                    }
                }
                ev.seen((y, lo, hi, p, up, 1), false, String::new);
            }
        }
        // both
        if let Some(both) = &f.both {
            let (x, y) = if r.chance(1, 3) && !invalid {
                // budgets that match each other
                let l = r.mag(0, 110);
                match (nd.x(l, true), nd.y(l, true)) {
                    (Ok(a), Ok(z)) => (a.saturating_add(r.below(3) as u128), z.saturating_add(r.below(3) as u128)),
                    _ => (x, y),
                }
            } else {
                (x, y)
            };
            let got = both(x, y, lo, hi, p, up);
            let c = format!("{} and y {}", ctx("liquidity by x", x), y);
            match got {
                Some((gx, gy, l)) => {
                    if invalid {
                        return Err(format!("{}: invalid range accepted, liquidity {}", c, l));
                    }
                    let (bx, by) = (if p < pb { x } else { 0 }, if p > pa { y } else { 0 });
                    if exceeds(nd.x(l, true), bx) || exceeds(nd.y(l, true), by) {
                        return Err(format!("{}: liquidity {} needs {:?} and {:?}", c, l, nd.x(l, true), nd.y(l, true)));
                    }
                    let more_x = p < pb && l.checked_add(nd.kx()).map(|l2| exceeds(nd.x(l2, true), x)).unwrap_or(true);
                    let more_y = p > pa && l.checked_add(1).map(|l2| exceeds(nd.y(l2, true), y)).unwrap_or(true);
                    if !more_x && !more_y {
                        return Err(format!("{}: liquidity {}, but the budgets allow more", c, l));
                    }
                    // the binding budget is reported as given, the other amount as the formula gives it
                    let fx = gx == bx || (up && nd.x(l, true) == Ok(gx)) || (!up && nd.x_most(l).map(|m| b(gx) <= m).unwrap_or(true));
                    let fy = gy == by || nd.y(l, up) == Ok(gy);
                    if gx > bx || gy > by || exceeds(nd.x(l, up), gx) || exceeds(nd.y(l, up), gy) || !fx || !fy || (gx != bx && gy != by) {
                        return Err(format!("{}: liquidity {}, reported {} and {}, needed {:?} and {:?}", c, l, gx, gy, nd.x(l, true), nd.y(l, true)));
                    }
                    ev.seen((x, y, lo, hi, p, up), l > 0, || format!("{}: {} {} liquidity {}", c, gx, gy, l));
                }
                None => {
                    if !invalid {
                        let okx = p >= pb || nd.lx(x).and_then(to128).map(|l| nd.y(l, true).is_ok()).unwrap_or(false);
                        let oky = p <= pa || nd.ly(y).and_then(to128).map(|l| nd.x(l, true).is_ok()).unwrap_or(false);
                        if okx && oky {
                            return Err(format!("{}: refused although both budgets give a liquidity", c));
                        }
                    }
                    ev.seen((x, y, lo, hi, p, up), false, String::new);
                }
            }
        }
    }
    Ok(())
}

