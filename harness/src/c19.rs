//! Tick-price conversion and bitmap searches: every returned value against exact wide arithmetic.
use crate::big::*;
use crate::mon::Ev;
use crate::pure::*;
use crate::refm;
use crate::rng::Rng;
use decimal::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::{self, calculate_sqrt_price, SqrtPrice};
use oraiswap_v3::{FeeTier, PoolKey};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

fn ctable() -> Result<&'static Vec<u128>, String> {
    static T: OnceLock<Result<Vec<u128>, String>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        for t in -refm::MAX_TICK..=refm::MAX_TICK {
            match tryit(|| calculate_sqrt_price(t).ok()) {
                Some(p) => v.push(p.get()),
                None => return Err(format!("tick {} has no price", t)),
            }
        }
        Ok(v)
    })
    .as_ref()
    .map_err(|e| e.clone())
}

fn expect_tick(tab: &[u128], p: u128, s: i32) -> i32 {
    let i = tab.partition_point(|x| *x <= p) as i32;
    refm::floor_align(i - 1 - refm::MAX_TICK, s)
}

fn tick_of(p: u128, s: u16) -> Option<i32> {
    tryit(|| oraiswap_v3::get_tick_at_sqrt_price(SqrtPrice::new(p), s).ok())
}

pub fn c19(seed: u64, case: u64, thorough: bool, ev: &mut Ev) -> V {
    let mut r = Rng::new(Rng::derive(seed, case));
    let tab = ctable()?;
    if case >= SLICES {
        return c19_maps(&mut r, ev);
    }
    let m = refm::MAX_TICK;
    if case == 0 {
        for t in [m + 1, -m - 1, m + 2, 2 * m, 262_143, 262_144, -262_144, 524_287, i32::MAX, i32::MIN, i32::MIN + 1, -2 * m] {
            if tryit(|| calculate_sqrt_price(t).ok()).is_some() {
                return Err(format!("tick {} is out of range but has a price", t));
            }
            ev.seen(("oor", t), true, || format!("tick {} refused", t));
        }
        let (lo, hi) = (tab[0], tab[tab.len() - 1]);
        for s in 1..=100u16 {
            for p in [0, 1, lo - 1, lo / 2, hi + 1, hi + 2, hi * 2, u128::MAX, u128::MAX - 1, 1u128 << 127] {
                if tick_of(p, s).is_some() {
                    return Err(format!("price {} is out of range but has tick {:?} at spacing {}", p, tick_of(p, s), s));
                }
            }
            let (mx, mn) = (m / s as i32 * s as i32, -(m / s as i32 * s as i32));
            if sqrt_price::get_max_tick(s) != mx || sqrt_price::get_min_tick(s) != mn {
                return Err(format!("bounds of spacing {}: {} {}", s, sqrt_price::get_min_tick(s), sqrt_price::get_max_tick(s)));
            }
            if sqrt_price::get_max_sqrt_price(s).get() != tab[(mx + m) as usize] || sqrt_price::get_min_sqrt_price(s).get() != tab[(mn + m) as usize] {
                return Err(format!("price bounds of spacing {}", s));
            }
            ev.seen(("bounds", s), true, || format!("bounds of spacing {}", s));
        }
        if oraiswap_v3::MAX_SQRT_PRICE != hi || oraiswap_v3::MIN_SQRT_PRICE != lo {
            return Err("the declared price bounds are not the prices of the extreme ticks".into());
        }
    }
    let from = case as i64 * SLICE - m as i64;
    for t in from..(from + SLICE).min(m as i64 + 1) {
        let t = t as i32;
        let i = (t + m) as usize;
        let p = tab[i];
        if i + 1 < tab.len() && tab[i + 1] <= p {
            return Err(format!("price of tick {} is {}, of the next tick {}: not increasing", t, p, tab[i + 1]));
        }
        let exact = 1.0001f64.powf(t as f64 / 2.0) * 1e24;
        let err = ((p as f64) - exact).abs() / exact;
        if err > 1e-6 {
            return Err(format!("price of tick {} is {}, off by a factor of {:e}", t, p, err));
        }
        if t > 0 {
            let q = tab[(m - t) as usize];
            // |q - 1/p| in units of 1e-24
            let e = p10(48);
            let inv = e / b(p);
            let d = if inv > b(q) { inv - b(q) } else { b(q) - inv };
            if d > b(2_000_000_000_000) {
                return Err(format!("price of tick {} is {}, not the reciprocal of {} of tick {}", -t, q, p, t));
            }
        }
        ev.seen(("price", t), true, || format!("tick {} -> {}", t, p));
        let next = tab.get(i + 1).copied().unwrap_or(p + 1);
        let mut ps = vec![p, next - 1, p + (next - p) / 2];
        if next - p > 2 {
            ps.push(p + 1);
            ps.push(p + 1 + r.below128(next - p - 1));
        }
        let mut spacings = vec![1u16];
        if thorough {
            spacings.extend(2..=100);
        } else {
            spacings.extend([*r.pick(&[2u16, 5, 10, 20, 50, 100, 64, 99]), r.range(2, 100) as u16]);
        }
        for p in ps {
            for &s in &spacings {
                let want = expect_tick(tab, p, s as i32);
                let got = tick_of(p, s);
                if got != Some(want) {
                    return Err(format!("price {} at spacing {} has tick {:?}, the greatest tick not above it is {}", p, s, got, want));
                }
                ev.seen((p, s), true, || format!("price {} at spacing {} -> tick {}", p, s, want));
                // a price belongs to exactly the tick it has
                if r.chance(1, 16) {
                    let t2 = want + (r.range(-1, 1) as i32) * s as i32;
                    if t2 >= -m && t2 <= m {
                        let fits = if t2 + s as i32 > m { p == tab[(refm::max_tick(s) + m) as usize] } else { want == t2 };
                        let got = tryit(|| sqrt_price::check_tick_to_sqrt_price_relationship(t2, s, SqrtPrice::new(p)).ok());
                        if got != Some(fits) {
                            return Err(format!("does price {} belong to tick {} at spacing {}: {:?}", p, t2, s, got));
                        }
                    }
                }
                // bitmap position and search window
                let (mx, mn) = (refm::max_tick(s), refm::min_tick(s));
                if want >= mn && want <= mx {
                    let pos = tryit(|| Some(oraiswap_v3::tick_to_position(want, s)));
                    let back = pos.and_then(|(c, bit)| if bit < 64 { tryit(|| Some(oraiswap_v3::position_to_tick(c, bit, s))) } else { None });
                    if back != Some(want) {
                        return Err(format!("tick {} at spacing {} is stored at {:?}, which is tick {:?}", want, s, pos, back));
                    }
                    let (c, _) = pos.unwrap();
                    if c > oraiswap_v3::get_max_chunk(s) {
                        return Err(format!("tick {} at spacing {} lies in chunk {} beyond the last chunk {}", want, s, c, oraiswap_v3::get_max_chunk(s)));
                    }
                    for up in [true, false] {
                        let k = want / s as i32;
                        let w = if up { (k + 256).min(mx / s as i32) } else { (k - 256).max(mn / s as i32) } * s as i32;
                        let g = tryit(|| Some(oraiswap_v3::get_search_limit(want, s, up)));
                        if g != Some(w) {
                            return Err(format!("search from tick {} at spacing {} (up: {}) ends at {:?}, not {}", want, s, up, g, w));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn c19_maps(r: &mut Rng, ev: &mut Ev) -> V {
    use oraiswap_v3::state;
    let s = *r.pick(&[1u16, 1, 1, 2, 3, 5, 7, 10, 20, 50, 60, 64, 99, 100]);
    let si = s as i32;
    let n = refm::MAX_TICK / si;
    let mut store = crate::chain::Mem::default();
    let k = |a: &str, z: &str| PoolKey { token_x: a.into(), token_y: z.into(), fee_tier: FeeTier { fee: Percentage(1), tick_spacing: s } };
    let key = k("orai1aaa", "orai1bbb");
    let other = k("orai1aaa", "orai1bbc");
    let mut set: BTreeSet<i32> = BTreeSet::new();
    let mut oset: BTreeSet<i32> = BTreeSet::new();
    let centre = match r.below(5) {
        0 => n - r.below(300) as i32,
        1 => -n + r.below(300) as i32,
        2 => r.range(-300, 300) as i32,
        _ => r.range(-n as i64, n as i64) as i32,
    };
    let spread = *r.pick(&[3i64, 20, 64, 70, 130, 256, 300, 600, 1500]);
    let pick = |r: &mut Rng| ((centre as i64 + r.range(-spread, spread)).clamp(-n as i64, n as i64)) as i32;
    for _ in 0..r.range(1, 14) {
        let mut t = pick(r);
        if r.chance(1, 3) {
            // word edges
            let idx = t + n;
            t = (idx / 64 * 64 + *r.pick(&[0, 63, 1, 62, 64])) - n;
            t = t.clamp(-n, n);
        }
        let (which, st) = if r.chance(1, 4) { (&other, &mut oset) } else { (&key, &mut set) };
        let on = !st.contains(&(t * si));
        // flipping to the present value must be refused, the other way round must work
        if tryit(|| state::flip_bitmap(&mut store, !on, t * si, s, which).ok()).is_some() {
            return Err(format!("tick {} at spacing {} set to {} although it is already", t * si, s, !on));
        }
        if tryit(|| state::flip_bitmap(&mut store, on, t * si, s, which).ok()).is_none() {
            return Err(format!("tick {} at spacing {} cannot be set to {}", t * si, s, on));
        }
        if on {
            st.insert(t * si);
        } else {
            st.remove(&(t * si));
        }
    }
    let mut probes: Vec<i32> = (0..24).map(|_| pick(r)).collect();
    for t in set.iter().take(6) {
        for d in [-257, -256, -255, -64, -1, 0, 1, 63, 64, 255, 256, 257] {
            probes.push((t / si + d).clamp(-n, n));
        }
    }
    probes.extend([n, -n, n - 1, -n + 1]);
    for u in probes {
        let t = u * si;
        if tryit(|| Some(state::get_bitmap(&store, t, s, &key))) != Some(set.contains(&t)) {
            return Err(format!("tick {} at spacing {} flagged wrongly; set {:?}", t, s, set));
        }
        let hi = (u + 256).min(n) * si;
        let lo = (u - 256).max(-n) * si;
        let want_up = if t + si > hi { None } else { set.range(t + si..=hi).next().copied() };
        let want_dn = set.range(lo..=t).next_back().copied();
        let up = catch_unwind(AssertUnwindSafe(|| state::next_initialized(&store, t, s, &key)));
        let dn = catch_unwind(AssertUnwindSafe(|| state::prev_initialized(&store, t, s, &key)));
        match (up, dn) {
            (Ok(a), Ok(z)) if a == want_up && z == want_dn => {}
            (a, z) => {
                return Err(format!(
                    "search from tick {} at spacing {}: up {:?} (expected {:?}), down {:?} (expected {:?}); initialised {:?}",
                    t, s, a.ok(), want_up, z.ok(), want_dn, set
                ))
            }
        }
        ev.seen(("search", t, s, want_up, want_dn), want_up.is_some() || want_dn.is_some(), || format!("search from {} at spacing {}: up {:?} down {:?}", t, s, want_up, want_dn));
        // the nearer of the next stop and the price limit
        for xy in [true, false] {
            let stop = if xy { want_dn } else { want_up };
            let (idx, init) = match stop {
                Some(t) => (t, true),
                None => (if xy { lo } else { hi }, false),
            };
            let tp = refm::price(idx);
            let limit = match r.below(5) {
                0 => tp,
                1 => tp + 1,
                2 => tp - 1,
                3 => refm::MIN_P,
                _ => refm::MAX_P,
            };
            let want = if !init && idx == t {
                None
            } else if (xy && tp > limit) || (!xy && tp <= limit) {
                Some((tp, Some((idx, init))))
            } else {
                Some((limit, None))
            };
            let got = tryit(|| state::get_closer_limit(&store, SqrtPrice::new(limit), xy, t, s, &key).ok()).map(|(p, x)| (p.get(), x));
            if got != want {
                return Err(format!("next stop from tick {} at spacing {} (x to y: {}, limit {}): {:?}, expected {:?}", t, s, xy, limit, got, want));
            }
        }
    }
    Ok(())
}

