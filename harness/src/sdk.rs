//! The client SDK, compiled natively, next to the contract: the same observed state, the same arguments.
use crate::chain::*;
use crate::mon::Ev;
use crate::obs::*;
use crate::pure::{tryit, V};
use crate::refm;
use crate::scen::{Scen, START};
use crate::spec::is_native;
use decimal::Decimal;
use oraiswap_v3 as ct;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3_wasm as sk;
use sk::fee_growth::FeeGrowth as SF;
use sk::liquidity::Liquidity as SL;
use sk::percentage::Percentage as SP;
use sk::sqrt_price::SqrtPrice as SS;
use sk::token_amount::TokenAmount as ST;
use std::collections::HashMap;
use wasm_bindgen::JsValue;

pub fn cl(x: u128) -> ct::liquidity::Liquidity {
    ct::liquidity::Liquidity(x)
}
pub fn cs(x: u128) -> ct::sqrt_price::SqrtPrice {
    ct::sqrt_price::SqrtPrice::new(x)
}
pub fn ca(x: u128) -> ct::token_amount::TokenAmount {
    ct::token_amount::TokenAmount(x)
}
pub fn cp(x: u64) -> ct::percentage::Percentage {
    ct::percentage::Percentage(x)
}
pub fn cf(x: u128) -> ct::fee_growth::FeeGrowth {
    ct::fee_growth::FeeGrowth(x)
}

// ---------------------------------------------------------------- states of the chain

struct Sim {
    ain: u128,
    aout: u128,
    fee: u128,
    start: u128,
    end: u128,
    crossed: Vec<i32>,
    short: bool,
    outdated: bool,
    capped: bool,
}

/// What the SDK says about a swap, from what the contract's queries say about the pool.
fn simulate(w: &World, k: &PK, xy: bool, amount: u128, by_in: bool, limit: u128) -> Result<Option<Sim>, String> {
    let e = |x: ErrKind| format!("query failed: {:?}", x);
    let pk = key(k);
    let p: ct::Pool = w.query(QueryMsg::Pool { token_0: k.0.clone(), token_1: k.1.clone(), fee_tier: pk.fee_tier }).map_err(e)?;
    let words: Vec<(u16, u64)> = w
        .query(QueryMsg::TickMap { pool_key: pk.clone(), lower_tick_index: refm::min_tick(k.3), upper_tick_index: refm::max_tick(k.3), x_to_y: xy })
        .map_err(e)?;
    let bitmap: HashMap<u64, u64> = words.iter().map(|(c, v)| (*c as u64, *v)).collect();
    let mut idx = vec![];
    for (c, v) in &words {
        for b in 0..64u8 {
            if v >> b & 1 == 1 {
                idx.push(sk::position_to_tick(*c, b, k.3));
            }
        }
    }
    let ticks: Vec<ct::LiquidityTick> = w.query(QueryMsg::LiquidityTicks { pool_key: pk, tick_indexes: idx }).map_err(e)?;
    let ticks: Vec<sk::LiquidityTick> = ticks.iter().map(|t| sk::LiquidityTick { index: t.index, liquidity_change: SL(t.liquidity_change.0), sign: t.sign }).collect();
    let pool = sk::Pool {
        liquidity: SL(p.liquidity.0),
        sqrt_price: SS(p.sqrt_price.get()),
        current_tick_index: p.current_tick_index,
        fee_growth_global_x: SF(p.fee_growth_global_x.0),
        fee_growth_global_y: SF(p.fee_growth_global_y.0),
        fee_protocol_token_x: ST(p.fee_protocol_token_x.0),
        fee_protocol_token_y: ST(p.fee_protocol_token_y.0),
        start_timestamp: p.start_timestamp,
        last_timestamp: p.last_timestamp,
        fee_receiver: p.fee_receiver.clone(),
    };
    Ok(tryit(|| {
        sk::swap::VERIF_TICKS.with(|t| *t.borrow_mut() = ticks);
        let tier = sk::FeeTier { fee: SP(k.2), tick_spacing: k.3 };
        sk::simulate_swap(sk::Tickmap { bitmap }, tier, pool, JsValue::NULL, xy, ST(amount), by_in, SS(limit)).ok()
    })
    .map(|r| Sim {
        ain: r.amount_in.0,
        aout: r.amount_out.0,
        fee: r.fee.0,
        start: r.start_sqrt_price.0,
        end: r.target_sqrt_price.0,
        crossed: r.crossed_ticks.iter().map(|t| t.index).collect(),
        short: r.global_insufficient_liquidity,
        outdated: r.state_outdated,
        capped: r.max_ticks_crossed,
    }))
}

/// Random swaps and claims on forks of the present state, SDK against contract.
pub fn probe(sc: &mut Scen, s: &Snap, n: usize, ev: &mut Ev) -> V {
    let pools: Vec<PK> = s.pools.keys().cloned().collect();
    if pools.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let k = if sc.rng.chance(3, 4) {
            match sc.pick_pool(s) {
                Some(k) => k,
                None => continue,
            }
        } else {
            sc.rng.pick(&pools).clone()
        };
        let mut m = sc.gen_swap_on(s, &k);
        if let ExecuteMsg::Swap { pool_key, .. } = &mut m {
            *pool_key = key(&k);
        }
        swap(&sc.w, s, &k, &m, ev)?;
    }
    if n % 4 == 3 {
        claims(&sc.w, s, ev)?;
    }
    Ok(())
}

fn swap(w: &World, s: &Snap, k: &PK, m: &ExecuteMsg, ev: &mut Ev) -> V {
    let (xy, amount, by_in, limit) = match m {
        ExecuteMsg::Swap { x_to_y, amount, by_amount_in, sqrt_price_limit, .. } => (*x_to_y, amount.0, *by_amount_in, sqrt_price_limit.get()),
        _ => return Ok(()),
    };
    let sim = simulate(w, k, xy, amount, by_in, limit)?;
    let quote: Result<ct::interface::QuoteResult, ErrKind> = w.query(QueryMsg::Quote { pool_key: key(k), x_to_y: xy, amount: ca(amount), by_amount_in: by_in, sqrt_price_limit: cs(limit) });
    let mut f = w.clone();
    f.fail_token = None;
    let ti = if xy { &k.0 } else { &k.1 };
    f.set_balance(ti, "orai1chain", START);
    let funds = if is_native(ti) { vec![coin(ti, START)] } else { vec![] };
    let res = f.exec("orai1chain", m, &funds);
    let model = s.model(k).unwrap().swap(xy, amount, by_in, limit, s.protocol_fee);
    let what = format!("swap {} {} {} limit {} in {:?}", if xy { "x to y" } else { "y to x" }, if by_in { "in" } else { "out" }, amount, limit, k);
    ev.seen((&what, crate::mon::state_hash(s)), res.is_ok(), || format!("{}: {:?}", what, res.as_ref().map(|o| &o.attrs)));
    let paid = |e: &ErrKind| !(e.is_transfer() || e.variant() == "InvalidFunds");
    // refusals of the arithmetic that only the contract performs (fee growth, protocol fee)
    let arithmetic = !matches!(model, Ok(_) | Err("AmountIsZero" | "WrongLimit" | "PriceLimitReached" | "TickLimitReached" | "NoGainSwap"));
    match (&sim, &res) {
        (None, Ok(o)) => return Err(format!("{}: the SDK fails, the contract executes {:?}", what, o.attrs)),
        (None, Err(e)) => {
            ev.count(&format!("both fail: {}", e.variant()));
            if !arithmetic && paid(e) && matches!(e.variant(), "PriceLimitReached" | "TickLimitReached" | "NoGainSwap") {
                return Err(format!("{}: the SDK fails, the contract refuses with {:?}", what, e));
            }
        }
        (Some(m), Ok(o)) => {
            if m.capped {
                ev.count("over the SDK's cap of crossed ticks");
                return Ok(());
            }
            if m.short || m.outdated {
                return Err(format!("{}: the SDK flags insufficient liquidity {} or outdated state {}, the contract executes {:?}", what, m.short, m.outdated, o.attrs));
            }
            let end: ct::Pool = f.query(QueryMsg::Pool { token_0: k.0.clone(), token_1: k.1.clone(), fee_tier: key(k).fee_tier }).map_err(|e| format!("{:?}", e))?;
            let got = (o.attr_u128("amount_in"), o.attr_u128("amount_out"), end.sqrt_price.get());
            if got != (Some(m.ain), Some(m.aout), m.end) {
                return Err(format!("{}: the SDK computes ({}, {}) ending at {}, the contract executes {:?}", what, m.ain, m.aout, m.end, got));
            }
            if m.start != s.pools[k].pool.sqrt_price.get() {
                return Err(format!("{}: the SDK reports start price {}, the pool is at {}", what, m.start, s.pools[k].pool.sqrt_price.get()));
            }
            if let Ok(r) = &model {
                if m.fee != r.fee_total && m.fee != r.fee_total - r.leftover {
                    return Err(format!("{}: the SDK reports fee {}, charged {} (of it {} left over at a tick)", what, m.fee, r.fee_total, r.leftover));
                }
            }
            if let Ok(q) = &quote {
                let want: Vec<i32> = q.ticks.iter().map(|t| t.index).collect();
                if m.crossed != want {
                    return Err(format!("{}: the SDK crosses {:?}, the contract {:?}", what, m.crossed, want));
                }
            }
            ev.count(if m.crossed.is_empty() { "swaps agreed, no tick crossed" } else { "swaps agreed, ticks crossed" });
        }
        (Some(m), Err(e)) => {
            if !paid(e) || m.capped {
                return Ok(());
            }
            let limit = matches!(e.variant(), "PriceLimitReached" | "TickLimitReached");
            if limit && !m.short {
                return Err(format!("{}: the contract refuses with {:?}, the SDK does not flag insufficient liquidity", what, e));
            }
            if m.short && !limit && !arithmetic {
                return Err(format!("{}: the SDK flags insufficient liquidity, the contract refuses with {:?}", what, e));
            }
            if !m.short && !m.outdated && m.aout > 0 && !arithmetic {
                return Err(format!("{}: the SDK computes ({}, {}), the contract refuses with {:?}", what, m.ain, m.aout, e));
            }
            ev.count(&format!("flagged, refused: {}", e.variant()));
        }
    }
    Ok(())
}

fn claims(w: &World, s: &Snap, ev: &mut Ev) -> V {
    let mut f = w.clone();
    f.fail_token = None;
    for (u, v) in &s.users {
        for (i, q) in v.iter().enumerate() {
            let g = |t: i32| w.query::<ct::Tick>(QueryMsg::Tick { key: q.pool_key.clone(), index: t });
            let p: ct::Pool = w.query(QueryMsg::Pool { token_0: q.pool_key.token_x.clone(), token_1: q.pool_key.token_y.clone(), fee_tier: q.pool_key.fee_tier }).map_err(|e| format!("{:?}", e))?;
            let (lo, hi) = match (g(q.lower_tick_index), g(q.upper_tick_index)) {
                (Ok(a), Ok(z)) => (a, z),
                _ => continue,
            };
            let got = tryit(|| {
                sk::calculate_fee(
                    lo.index,
                    SF(lo.fee_growth_outside_x.0),
                    SF(lo.fee_growth_outside_y.0),
                    hi.index,
                    SF(hi.fee_growth_outside_x.0),
                    SF(hi.fee_growth_outside_y.0),
                    p.current_tick_index,
                    SF(p.fee_growth_global_x.0),
                    SF(p.fee_growth_global_y.0),
                    SF(q.fee_growth_inside_x.0),
                    SF(q.fee_growth_inside_y.0),
                    SL(q.liquidity.0),
                )
                .ok()
            })
            .and_then(|r| Some((r.x.0.checked_add(q.tokens_owed_x.0)?, r.y.0.checked_add(q.tokens_owed_y.0)?)));
            let r = f.exec(u, &ExecuteMsg::ClaimFee { index: i as u32 }, &[]);
            let want = match &r {
                Ok(o) => o.attr_u128("amount_x").zip(o.attr_u128("amount_y")),
                Err(e) if e.is_transfer() => continue,
                Err(_) => None,
            };
            ev.seen((crate::mon::state_hash(s), u, i), want.map(|(a, z)| a > 0 || z > 0).unwrap_or(false), || format!("fees of position {} of {}: {:?}", i, u, want));
            if got != want {
                return Err(format!("fees of position {} of {} ({}..{} liquidity {}): the SDK computes {:?}, the contract pays {:?} ({:?})", i, u, lo.index, hi.index, q.liquidity.0, got, want, r.err()));
            }
        }
    }
    Ok(())
}
