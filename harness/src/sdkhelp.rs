//! The helper functions of the client SDK against the contract's, called directly with the same arguments.
use crate::chain::*;
use crate::mon::Ev;
use crate::pure::{tryit, val, V};
use crate::refm;
use crate::rng::Rng;
use decimal::Decimal;
use crate::sdk::{ca, cf, cl, cp, cs};
use oraiswap_v3 as ct;
use oraiswap_v3_wasm as sk;
use sk::fee_growth::FeeGrowth as SF;
use sk::liquidity::Liquidity as SL;
use sk::percentage::Percentage as SP;
use sk::sqrt_price::SqrtPrice as SS;
use sk::token_amount::TokenAmount as ST;

fn cmp<T: PartialEq + std::fmt::Debug, A: std::hash::Hash + std::fmt::Debug>(ev: &mut Ev, name: &str, args: A, contract: Option<T>, sdk: Option<T>) -> V {
    if contract != sdk {
        return Err(format!("{}{:?}: contract {:?}, SDK {:?}", name, args, contract, sdk));
    }
    let some = contract.is_some();
    ev.seen((name, &args), some, || format!("{}{:?} = {:?}", name, args, contract));
    Ok(())
}

pub fn helpers(seed: u64, case: u64, ev: &mut Ev) -> V {
    let mut r = Rng::new(Rng::derive(seed, case));
    let r = &mut r;
    let m = refm::MAX_TICK;
    if case == 0 {
        cmp(ev, "MAX_TICK", (), Some(ct::MAX_TICK), Some(sk::MAX_TICK))?;
        cmp(ev, "MIN_TICK", (), Some(ct::MIN_TICK), Some(sk::MIN_TICK))?;
        cmp(ev, "MAX_SQRT_PRICE", (), Some(ct::MAX_SQRT_PRICE), Some(sk::MAX_SQRT_PRICE))?;
        cmp(ev, "MIN_SQRT_PRICE", (), Some(ct::MIN_SQRT_PRICE), Some(sk::MIN_SQRT_PRICE))?;
        cmp(ev, "TICK_SEARCH_RANGE", (), Some(ct::TICK_SEARCH_RANGE), Some(sk::get_tick_search_range()))?;
        cmp(ev, "CHUNK_SIZE", (), Some(ct::CHUNK_SIZE), Some(sk::get_chunk_size()))?;
        cmp(ev, "MAX_TICKMAP_QUERY_SIZE", (), Some(ct::MAX_TICKMAP_QUERY_SIZE as u32), Some(sk::get_max_tickmap_query_size()))?;
        cmp(ev, "LIQUIDITY_TICK_LIMIT", (), Some(ct::LIQUIDITY_TICK_LIMIT as u32), Some(sk::get_liquidity_ticks_limit()))?;
        for s in 1..=100u16 {
            cmp(ev, "max tick", s, tryit(|| Some(ct::sqrt_price::get_max_tick(s))), tryit(|| Some(sk::sqrt_price::get_max_tick(s))))?;
            cmp(ev, "min tick", s, tryit(|| Some(ct::sqrt_price::get_min_tick(s))), tryit(|| Some(sk::sqrt_price::get_min_tick(s))))?;
            cmp(ev, "max price", s, tryit(|| Some(ct::sqrt_price::get_max_sqrt_price(s).get())), tryit(|| Some(sk::sqrt_price::get_max_sqrt_price(s).0)))?;
            cmp(ev, "min price", s, tryit(|| Some(ct::sqrt_price::get_min_sqrt_price(s).get())), tryit(|| Some(sk::sqrt_price::get_min_sqrt_price(s).0)))?;
            cmp(ev, "max chunk", s, tryit(|| Some(ct::get_max_chunk(s))), tryit(|| Some(sk::get_max_chunk(s))))?;
            cmp(ev, "max liquidity per tick", s, tryit(|| Some(ct::calculate_max_liquidity_per_tick(s).0)), tryit(|| Some(sk::clamm::calculate_max_liquidity_per_tick(s).0)))?;
        }
    }
    // every tick's price, a slice per case
    let slices = 600u64;
    let width = (2 * m as i64 + 1) / slices as i64 + 1;
    let from = -m as i64 + (case / 4 % slices) as i64 * width;
    for t in from..(from + width).min(m as i64 + 3) {
        let t = t as i32;
        cmp(ev, "price of tick", t, tryit(|| ct::sqrt_price::calculate_sqrt_price(t).ok().map(|x| x.get())), tryit(|| sk::sqrt_price::calculate_sqrt_price(t).ok().map(|x| x.0)))?;
    }
    for _ in 0..120 {
        let s = *r.pick(&[1u16, 1, 2, 3, 5, 7, 10, 20, 60, 64, 99, 100]);
        let si = s as i32;
        let tick = |r: &mut Rng| match r.below(8) {
            0 => m - r.below(300) as i32,
            1 => -m + r.below(300) as i32,
            2 => r.range(-300, 300) as i32,
            3 => r.range(-m as i64 - 50, m as i64 + 50) as i32,
            4 => refm::floor_align(m - r.below(600) as i32, si),
            _ => refm::floor_align(r.range(-m as i64 + 100, m as i64) as i32, si),
        };
        let price = |r: &mut Rng| {
            let t = r.range(-m as i64, m as i64) as i32;
            match r.below(6) {
                0 => refm::price(t),
                1 => refm::price(t).saturating_add(r.below(3) as u128),
                2 => refm::price(t).saturating_sub(1 + r.below(2) as u128),
                3 => refm::price(refm::floor_align(t, si).clamp(-m, m)),
                4 => *r.pick(&[refm::MIN_P - 1, refm::MIN_P, refm::MIN_P + 1, refm::MAX_P - 1, refm::MAX_P, refm::MAX_P + 1, 0, u128::MAX]),
                _ => refm::MIN_P + r.below128(refm::MAX_P - refm::MIN_P),
            }
        };
        let inprice = |r: &mut Rng| price(r).clamp(refm::MIN_P, refm::MAX_P);
        let liq = |r: &mut Rng| match r.below(6) {
            0 => val(r, u128::MAX),
            1 => 0,
            2 => r.mag(0, 30),
            _ => r.mag(0, 128),
        };
        let amt = |r: &mut Rng| match r.below(5) {
            0 => val(r, u128::MAX),
            1 => r.mag(0, 20),
            _ => r.mag(0, 128),
        };
        let fee = *r.pick(&[0u64, 1, 1_000_000, 500_000_000, 3_000_000_000, 10_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000]);
        let up = r.chance(1, 2);
        let xy = r.chance(1, 2);
        let by_in = r.chance(1, 2);

        // prices and ticks
        let p = price(r);
        cmp(ev, "tick at price", (p, s), tryit(|| ct::get_tick_at_sqrt_price(cs(p), s).ok()), tryit(|| sk::get_tick_at_sqrt_price(SS(p), s).ok()))?;
        let t = tick(r);
        cmp(ev, "aligned tick", (t, s), Some(refm::floor_align(t, si)), tryit(|| Some(sk::align_tick_to_spacing(t, si))))?;
        cmp(ev, "check tick", (t, s), tryit(|| ct::check_tick(t, s).ok()), tryit(|| sk::clamm::check_tick(t, s).ok()))?;
        let t2 = if r.chance(1, 2) { tick(r) } else { t + si * r.range(-3, 3) as i32 };
        cmp(ev, "check ticks", (t, t2, s), tryit(|| ct::check_ticks(t, t2, s).ok()), tryit(|| sk::clamm::check_ticks(t, t2, s).ok()))?;
        let q = if r.chance(1, 2) { price(r) } else { let k = (t + si * r.range(0, 1) as i32).clamp(-m, m); refm::price(k) - r.below(2) as u128 };
        cmp(ev, "price belongs to tick", (t, s, q), tryit(|| ct::sqrt_price::check_tick_to_sqrt_price_relationship(t, s, cs(q)).ok()), tryit(|| sk::check_tick_to_sqrt_price_relationship(t, s, SS(q)).ok()))?;

        // bitmap
        cmp(ev, "bit of tick", (t, s), tryit(|| Some(ct::tick_to_position(t, s))), tryit(|| Some(sk::tickmap::tick_to_position(t, s))))?;
        cmp(ev, "bit of tick (js)", (t, s), tryit(|| Some(ct::tick_to_position(t, s))), tryit(|| sk::tickmap::tick_to_position_js(t, s).ok().map(|x| (x.chunk, x.bit))))?;
        let (c, bit) = (r.below(ct::get_max_chunk(s) as u64 + 1) as u16, r.below(64) as u8);
        cmp(ev, "tick of bit", (c, bit, s), tryit(|| Some(ct::position_to_tick(c, bit, s))), tryit(|| Some(sk::tickmap::position_to_tick(c, bit, s))))?;
        cmp(ev, "search limit", (t, s, up), tryit(|| Some(ct::get_search_limit(t, s, up))), tryit(|| Some(sk::tickmap::get_search_limit(t, s, up))))?;

        // amounts
        let (a, z) = (inprice(r), inprice(r));
        let (a, z) = if r.chance(1, 3) { (a, refm::price((refm::tick_at(a, 1).unwrap_or(0) + r.range(-5, 5) as i32).clamp(-m, m))) } else { (a, z) };
        let l = liq(r);
        cmp(ev, "delta x", (a, z, l, up), tryit(|| ct::get_delta_x(cs(a), cs(z), cl(l), up).ok().map(|x| x.0)), tryit(|| sk::clamm::get_delta_x(SS(a), SS(z), SL(l), up).ok().map(|x| x.0)))?;
        cmp(ev, "delta y", (a, z, l, up), tryit(|| ct::get_delta_y(cs(a), cs(z), cl(l), up).ok().map(|x| x.0)), tryit(|| sk::clamm::get_delta_y(SS(a), SS(z), SL(l), up).ok().map(|x| x.0)))?;
        // amounts on the scale of the liquidity
        let am = if r.chance(1, 2) {
            amt(r)
        } else {
            let d = if xy == by_in { refm::delta_x(a, z, l, true) } else { refm::delta_y(a, z, l, true) };
            let d = d.unwrap_or(1 << 60);
            match r.below(4) {
                0 => d,
                1 => d.saturating_add(r.below(3) as u128),
                2 => d.saturating_sub(r.below(3) as u128),
                _ => r.below128(d.saturating_add(1).max(1)),
            }
        };
        cmp(ev, "next price x", (a, l, am, up), tryit(|| ct::get_next_sqrt_price_x_up(cs(a), cl(l), ca(am), up).ok().map(|x| x.get())), tryit(|| sk::clamm::get_next_sqrt_price_x_up(SS(a), SL(l), ST(am), up).ok().map(|x| x.0)))?;
        if l > 0 {
            let want = refm::next_y(a, l, am, up).ok();
            if want.is_some() {
                cmp(ev, "next price y", (a, l, am, up), want, tryit(|| sk::clamm::get_next_sqrt_price_y_down(SS(a), SL(l), ST(am), up).ok().map(|x| x.0)))?;
            }
            let want = refm::next_in(a, l, am, xy).ok();
            if want.is_some() {
                cmp(ev, "next price from input", (a, l, am, xy), want, tryit(|| sk::clamm::get_next_sqrt_price_from_input(SS(a), SL(l), ST(am), xy).ok().map(|x| x.0)))?;
            }
            let want = refm::next_out(a, l, am, xy).ok();
            if want.is_some() {
                cmp(ev, "next price from output", (a, l, am, xy), want, tryit(|| sk::clamm::get_next_sqrt_price_from_output(SS(a), SL(l), ST(am), xy).ok().map(|x| x.0)))?;
            }
        }
        let (a1, z1) = if (a >= z) == xy { (a, z) } else { (z, a) };
        cmp(
            ev,
            "swap step",
            (a1, z1, l, am, by_in, fee),
            tryit(|| ct::compute_swap_step(cs(a1), cs(z1), cl(l), ca(am), by_in, cp(fee)).ok()).map(|x| (x.next_sqrt_price.get(), x.amount_in.0, x.amount_out.0, x.fee_amount.0)),
            tryit(|| sk::clamm::compute_swap_step(SS(a1), SS(z1), SL(l), ST(am), by_in, SP(fee)).ok()).map(|x| (x.next_sqrt_price.0, x.amount_in.0, x.amount_out.0, x.fee_amount.0)),
        )?;
        let small = if r.chance(1, 2) { am } else { r.below(5) as u128 };
        cmp(
            ev,
            "amount moves price",
            (small, a, l, fee, by_in, xy),
            tryit(|| ct::is_enough_amount_to_change_price(ca(small), cs(a), cl(l), cp(fee), by_in, xy).ok()),
            tryit(|| sk::clamm::is_enough_amount_to_change_price(ST(small), SS(a), SL(l), SP(fee), by_in, xy).ok()),
        )?;
        let (lo, hi) = (t.min(t2), t.max(t2));
        let cur = if r.chance(1, 2) { refm::tick_at(a, s).unwrap_or(0) } else { *r.pick(&[lo, hi, lo - si, hi - si, (lo + hi) / 2]) };
        let (lo, hi) = if r.chance(1, 12) { (hi, lo) } else { (lo, hi) };
        cmp(
            ev,
            "amounts of a range",
            (cur, a, l, up, hi, lo),
            tryit(|| ct::calculate_amount_delta(cur, cs(a), cl(l), up, hi, lo).ok()).map(|x| (x.0 .0, x.1 .0, x.2)),
            tryit(|| sk::clamm::calculate_amount_delta(cur, SS(a), SL(l), up, hi, lo).ok()).map(|x| (x.x.0, x.y.0, x.update_liquidity)),
        )?;
        let sl = *r.pick(&[0u64, 1, 10_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_001, fee, u64::MAX]);
        cmp(ev, "minimum output", (am, sl), tryit(|| Some(ct::calculate_min_amount_out(ca(am), cp(sl)).0)), tryit(|| Some(sk::clamm::calculate_min_amount_out(ST(am), SP(sl)).0)))?;

        // fees
        let g: Vec<u128> = (0..8).map(|_| if r.chance(1, 2) { val(r, u128::MAX) } else { r.mag(0, 128) }).collect();
        cmp(
            ev,
            "fee growth inside",
            (lo, hi, cur, &g),
            tryit(|| Some(ct::fee_growth::calculate_fee_growth_inside(lo, cf(g[0]), cf(g[1]), hi, cf(g[2]), cf(g[3]), cur, cf(g[4]), cf(g[5])))).map(|x| (x.0 .0, x.1 .0)),
            tryit(|| Some(sk::fee_growth::calculate_fee_growth_inside(lo, SF(g[0]), SF(g[1]), hi, SF(g[2]), SF(g[3]), cur, SF(g[4]), SF(g[5])))).map(|x| (x.0 .0, x.1 .0)),
        )?;
        cmp(ev, "growth of fee", (l, am), tryit(|| ct::fee_growth::FeeGrowth::from_fee(cl(l), ca(am)).ok().map(|x| x.0)), tryit(|| SF::from_fee(SL(l), ST(am)).ok().map(|x| x.0)))?;
        cmp(ev, "fee of growth", (g[6], l), tryit(|| cf(g[6]).to_fee(cl(l)).ok().map(|x| x.0)), tryit(|| SF(g[6]).to_fee(SL(l)).ok().map(|x| x.0)))?;
        // the whole of it: what a position with this history would be paid
        let want = tryit(|| {
            let (x, y) = ct::fee_growth::calculate_fee_growth_inside(lo, cf(g[0]), cf(g[1]), hi, cf(g[2]), cf(g[3]), cur, cf(g[4]), cf(g[5]));
            Some((x.unchecked_sub(cf(g[6])).to_fee(cl(l)).ok()?.0, y.unchecked_sub(cf(g[7])).to_fee(cl(l)).ok()?.0))
        });
        cmp(
            ev,
            "collectable fees",
            (lo, hi, cur, &g, l),
            want,
            tryit(|| sk::calculate_fee(lo, SF(g[0]), SF(g[1]), hi, SF(g[2]), SF(g[3]), cur, SF(g[4]), SF(g[5]), SF(g[6]), SF(g[7]), SL(l)).ok()).map(|x| (x.x.0, x.y.0)),
        )?;

        // tokens and tiers
        let names = ["a", "b", "orai", "orai1aaa", "orai1aaa0", "ibc/x", "ibc/X", "Z", "z", "", "uusd", "uusdt", "é"];
        let (n0, n1) = (r.pick(&names).to_string(), r.pick(&names).to_string());
        let ctier = ct::FeeTier { fee: cp(fee), tick_spacing: s };
        let stier = sk::FeeTier { fee: SP(fee), tick_spacing: s };
        cmp(ev, "pool key", (&n0, &n1), tryit(|| ct::PoolKey::new(n0.clone(), n1.clone(), ctier).ok()).map(|k| (k.token_x, k.token_y)), tryit(|| sk::new_pool_key(n0.clone(), n1.clone(), stier).ok()).map(|k| (k.token_x, k.token_y)))?;
        if n0 != n1 {
            let want = tryit(|| ct::PoolKey::new(n0.clone(), n1.clone(), ctier).ok()).map(|k| k.token_x == n0);
            cmp(ev, "first token", (&n0, &n1), want, tryit(|| sk::is_token_x(n0.clone(), n1.clone()).ok()))?;
        }
        let (f2, s2) = (*r.pick(&[fee, 1_000_000_000_000, 1_000_000_000_001, u64::MAX]), *r.pick(&[0u16, 1, 100, 101, s, u16::MAX]));
        cmp(ev, "fee tier", (f2, s2), tryit(|| ct::FeeTier::new(cp(f2), s2).ok()).map(|x| (x.fee.0, x.tick_spacing)), tryit(|| sk::new_fee_tier(SP(f2), s2).ok()).map(|x| (x.fee.0, x.tick_spacing)))?;
    }
    maps(r, ev)
}

/// The same bits set in the contract's and the SDK's tick map, searched in both directions.
fn maps(r: &mut Rng, ev: &mut Ev) -> V {
    use ct::state;
    let s = *r.pick(&[1u16, 1, 1, 2, 3, 5, 7, 10, 20, 50, 60, 64, 99, 100]);
    let si = s as i32;
    let n = refm::MAX_TICK / si;
    let mut store = Mem::default();
    let mut map = sk::Tickmap::default();
    let k = ct::PoolKey { token_x: "a".into(), token_y: "b".into(), fee_tier: ct::FeeTier { fee: cp(1), tick_spacing: s } };
    let centre = match r.below(5) {
        0 => n - r.below(300) as i32,
        1 => -n + r.below(300) as i32,
        2 => r.range(-300, 300) as i32,
        _ => r.range(-n as i64, n as i64) as i32,
    };
    let spread = *r.pick(&[3i64, 20, 64, 130, 256, 600]);
    let pick = |r: &mut Rng| ((centre as i64 + r.range(-spread, spread)).clamp(-n as i64, n as i64)) as i32;
    let mut set = vec![];
    for _ in 0..r.range(1, 12) {
        let t = pick(r) * si;
        let on = !set.contains(&t);
        let a = tryit(|| state::flip_bitmap(&mut store, on, t, s, &k).ok());
        let z = tryit(|| {
            map.flip(on, t, s);
            Some(())
        });
        cmp(ev, "flip", (on, t, s), a, z)?;
        if on {
            set.push(t);
        } else {
            set.retain(|x| *x != t);
        }
    }
    let mut probes: Vec<i32> = (0..20).map(|_| pick(r)).collect();
    for t in set.iter().take(4) {
        for d in [-257, -256, -255, -64, -1, 0, 1, 63, 255, 256, 257] {
            probes.push((t / si + d).clamp(-n, n));
        }
    }
    probes.extend([n, -n]);
    for u in probes {
        let t = u * si;
        cmp(ev, "is initialised", (t, s, &set), tryit(|| Some(state::get_bitmap(&store, t, s, &k))), tryit(|| Some(map.get(t, s))))?;
        cmp(ev, "next initialised", (t, s, &set), tryit(|| Some(state::next_initialized(&store, t, s, &k))), tryit(|| Some(map.next_initialized(t, s))))?;
        cmp(ev, "previous initialised", (t, s, &set), tryit(|| Some(state::prev_initialized(&store, t, s, &k))), tryit(|| Some(map.prev_initialized(t, s))))?;
        let xy = r.chance(1, 2);
        let near = (t + si * r.range(-300, 300) as i32).clamp(-refm::MAX_TICK, refm::MAX_TICK);
        let limit = if r.chance(1, 2) && !set.is_empty() { refm::price(*r.pick(&set)) } else { refm::price(near) } + r.below(3) as u128 - 1;
        cmp(
            ev,
            "next stop",
            (limit, xy, t, s, &set),
            tryit(|| state::get_closer_limit(&store, cs(limit), xy, t, s, &k).ok()).map(|x| (x.0.get(), x.1)),
            tryit(|| map.get_closer_limit(SS(limit), xy, t, s).ok()).map(|x| (x.0 .0, x.1)),
        )?;
    }
    Ok(())
}
