//! Single steps of C03, C16 and C23: the real formulas on arbitrary reachable arguments.
use crate::big::*;
use crate::mon::Ev;
use crate::pure::*;
use crate::refm;
use crate::rng::Rng;
use decimal::Decimal;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;

/// One price step and one deposit/withdrawal formula of the real code on arbitrary reachable arguments.
pub fn steps(prop: &str, seed: u64, n: usize, ev: &mut Ev) -> V {
    let mut r = Rng::new(seed ^ 0x57e9);
    let r = &mut r;
    let m = refm::MAX_TICK;
    for _ in 0..n {
        let s = *r.pick(&[1i32, 1, 2, 5, 10, 60, 100]);
        let liq = match r.below(4) {
            0 => val(r, u128::MAX),
            1 => r.mag(0, 40),
            _ => r.mag(10, 115),
        };
        if prop != "C23" {
            let t = refm::floor_align(r.range((-m + s) as i64, (m - s) as i64) as i32, s);
            let cur = match r.below(4) {
                0 => refm::price(t),
                1 => refm::price(t) + r.below(4) as u128,
                2 => refm::price(t + s) - 1 - r.below(4) as u128,
                _ => refm::price(t) + r.below128(refm::price(t + s) - refm::price(t)),
            };
            let xy = r.chance(1, 2);
            let far = *r.pick(&[0i32, 1, 1, 2, 10, 255, 256]) * s;
            let tt = if xy { t - far } else { t + s + far };
            let mut target = refm::price(tt.clamp(-m, m));
            if r.chance(1, 4) {
                target = if xy { cur - r.below128(cur - target.min(cur) + 1) } else { cur + r.below128(target.max(cur) - cur + 1) };
            }
            let xy = cur >= target;
            let fee = *r.pick(&[0u64, 1, 100_000_000, 500_000_000, 3_000_000_000, 10_000_000_000, 500_000_000_000, 999_999_999_999]);
            let by_in = r.chance(1, 2);
            let need = if by_in == xy { refm::delta_x(target, cur, liq, by_in) } else { refm::delta_y(target, cur, liq, by_in) };
            let mut amount = match r.below(5) {
                0 => val(r, u128::MAX),
                1 => r.mag(0, 60),
                2 => r.below128(need.unwrap_or(1 << 100).saturating_add(2)),
                _ => near(r, need.unwrap_or(1 << 100)),
            };
            if by_in && r.chance(1, 2) {
                // before the fee
                let g = div_up(b(amount) * b(refm::ONE_PCT as u128), b((refm::ONE_PCT - fee) as u128));
                amount = near(r, clip(g, u128::MAX));
            }
            let got = tryit(|| {
                oraiswap_v3::compute_swap_step(SqrtPrice::new(cur), SqrtPrice::new(target), Liquidity::new(liq), TokenAmount(amount), by_in, Percentage::new(fee)).ok()
            })
            .map(|x| refm::StepRes { next: x.next_sqrt_price.get(), ain: x.amount_in.0, aout: x.amount_out.0, fee: x.fee_amount.0 });
            let want = refm::step(cur, target, liq, amount, by_in, fee);
            let what = || format!("step from price {} towards {} with liquidity {}, {} {}, fee {}", cur, target, liq, if by_in { "input" } else { "output" }, amount, fee);
            ev.seen(("step", cur, target, liq, amount, by_in), got.is_some() && liq > 0, what);
            match (got, want) {
                (Some(g), Ok(w)) if prop == "C03" => {
                    if g != w {
                        return Err(format!("{}: {:?}, the curve gives {:?}", what(), g, w));
                    }
                }
                (Some(g), Err(_)) if prop == "C03" => return Err(format!("{}: {:?}, but no exact result fits", what(), g)),
                (None, Ok(w)) if prop == "C16" => return Err(format!("{}: refused, the curve gives {:?}", what(), w)),
                _ => {}
            }
        } else {
            let a = refm::floor_align(r.range((-m + s) as i64, (m - s) as i64) as i32, s);
            let z = match r.below(3) {
                0 => a + s,
                1 => (a + s * r.range(1, 300) as i32).min(refm::max_tick(s as u16)),
                _ => refm::floor_align(r.range(a as i64 + 1, m as i64) as i32, s).max(a + s).min(refm::max_tick(s as u16)),
            };
            if z <= a {
                continue;
            }
            let p = match r.below(8) {
                0 => refm::price(a),
                1 => refm::price(z),
                2 => refm::price(a) - r.below(3) as u128,
                3 => refm::price(z) - r.below(3) as u128,
                4 => refm::MIN_P + r.below128(refm::MAX_P - refm::MIN_P),
                _ => refm::price(a) + r.below128(refm::price(z) - refm::price(a)),
            }
            .clamp(refm::MIN_P, refm::MAX_P);
            let mut cur = match refm::tick_at(p, s as u16) {
                Some(t) if t >= -m => t,
                _ => continue,
            };
            if p == refm::price(cur) && cur - s >= -m && r.chance(1, 3) {
                // the price stopped on the boundary it just crossed downwards
                cur -= s;
            }
            let up = r.chance(1, 2);
            let got = tryit(|| oraiswap_v3::calculate_amount_delta(cur, SqrtPrice::new(p), Liquidity::new(liq), up, z, a).ok()).map(|(x, y, _)| (x.0, y.0));
            let want = refm::amount_delta(cur, p, liq, up, a, z);
            let what = || format!("amounts of liquidity {} in {}..{} at price {} (tick {}), rounded {}", liq, a, z, p, cur, if up { "up" } else { "down" });
            ev.seen(("amounts", liq, a, z, p, up), got.map(|g| g != (0, 0)).unwrap_or(false), what);
            match (got, want) {
                (Some(g), Ok(w)) if g == w => {}
                (Some(g), w) => return Err(format!("{}: {:?}, exactly {:?}", what(), g, w)),
                (None, Ok(w)) => return Err(format!("{}: refused, exactly {:?}", what(), w)),
                _ => {}
            }
        }
    }
    Ok(())
}
