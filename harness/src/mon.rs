//! The monitors: each judges the executions of the real contract for one property.
use crate::big::*;
use crate::chain::*;
use crate::obs::*;
use crate::refm;
use crate::rng::Rng;
use crate::scen::*;
use crate::spec::*;
use cosmwasm_std::{Binary, Coin};
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, Pool, PoolKey, Position};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Ev {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counts: BTreeMap<String, u64>,
}
impl Ev {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn seen<T: Hash>(&mut self, case: T, nontrivial: bool, sample: impl FnOnce() -> String) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 1_000_000 {
            let mut h = DefaultHasher::new();
            case.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 3 {
                self.samples.push(sample());
            }
        }
    }
    pub fn merge(&mut self, o: Ev) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 5 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
    }
}

#[derive(Clone, Default)]
pub struct Acc {
    pub gx: u128,
    pub gy: u128,
}

/// What only history can tell: fee growth earned per position, time spent in range.
#[derive(Default)]
pub struct Shadow {
    pub acc: BTreeMap<String, Vec<Acc>>,
    pub time: BTreeMap<(PK, i32, i32), (u64, u64)>,
    pub last_ms: u64,
    /// false once the history could not be followed (nested calls)
    pub valid: bool,
}

pub struct Cx<'a> {
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub a: &'a World,
    pub z: &'a World,
    pub step: &'a Step,
    pub blk: Block,
    pub exp: &'a R,
    pub pay: Pay,
    pub res: &'a Res,
}

pub type V = Result<(), String>;

fn kind_of(m: &ExecuteMsg) -> &'static str {
    use ExecuteMsg::*;
    match m {
        ChangeAdmin { .. } => "change_admin",
        WithdrawProtocolFee { .. } => "withdraw_protocol_fee",
        ChangeProtocolFee { .. } => "change_protocol_fee",
        ChangeFeeReceiver { .. } => "change_fee_receiver",
        CreatePosition { .. } | Mint { .. } => "create",
        Swap { .. } => "swap",
        SwapRoute { .. } => "swap_route",
        TransferPosition { .. } => "transfer",
        ClaimFee { .. } => "claim",
        RemovePosition { .. } => "remove",
        CreatePool { .. } => "create_pool",
        AddFeeTier { .. } => "add_fee_tier",
        RemoveFeeTier { .. } => "remove_fee_tier",
        TransferNft { .. } => "transfer_nft",
        Burn { .. } => "burn",
        SendNft { .. } => "send_nft",
        Approve { .. } => "approve",
        Revoke { .. } => "revoke",
        ApproveAll { .. } => "approve_all",
        RevokeAll { .. } => "revoke_all",
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Decision {
    Agree,
    RefusedValid,
    AcceptedInvalid(&'static str),
    AcceptedUnpaid,
    Unknown,
}

pub fn decision(c: &Cx) -> Decision {
    match (c.exp, c.res) {
        (Ok(_), Ok(_)) => match c.pay {
            Pay::Short => Decision::AcceptedUnpaid,
            _ => Decision::Agree,
        },
        (Ok(_), Err(_)) => match c.pay {
            Pay::Ok => Decision::RefusedValid,
            Pay::Short => Decision::Agree,
            Pay::Unknown => Decision::Unknown,
        },
        (Err(r), Ok(_)) => Decision::AcceptedInvalid(r),
        (Err(_), Err(_)) => Decision::Agree,
    }
}

const ARITH: [&str; 14] = [
    "cast", "u256", "den", "den0", "mul", "add", "sub", "growth", "liq", "loop", "range", "protocol", "fee underflow", "fees",
];

fn hostile(c: &Cx) -> bool {
    c.step.hook.is_some()
}

fn case(c: &Cx) -> (String, String, u64, bool) {
    (format!("{:?}", c.step.msg), c.step.sender.clone(), state_hash(c.pre), c.res.is_ok())
}
pub fn state_hash(s: &Snap) -> u64 {
    let mut h = DefaultHasher::new();
    for (k, p) in &s.pools {
        k.hash(&mut h);
        p.pool.sqrt_price.get().hash(&mut h);
        p.pool.current_tick_index.hash(&mut h);
        p.pool.liquidity.0.hash(&mut h);
        p.pool.fee_growth_global_x.0.hash(&mut h);
        p.pool.fee_growth_global_y.0.hash(&mut h);
    }
    for (u, v) in &s.users {
        u.hash(&mut h);
        for q in v {
            q.lower_tick_index.hash(&mut h);
            q.upper_tick_index.hash(&mut h);
            q.liquidity.0.hash(&mut h);
            q.approvals.len().hash(&mut h);
        }
    }
    h.finish()
}
pub fn brief(c: &Cx) -> String {
    let r = match c.res {
        Ok(o) => format!("ok {:?}", o.attrs.iter().filter(|a| a.0.starts_with("amount")).collect::<Vec<_>>()),
        Err(e) => format!("refused {:?}", e),
    };
    format!("{} by {}: {:?} funds {:?} -> {}", kind_of(&c.step.msg), c.step.sender, c.step.msg, c.step.funds, r)
}

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

fn same_store(c: &Cx) -> V {
    ensure!(c.a.store.data == c.z.store.data, "a refused request changed stored data");
    ensure!(net_observed(c.a, c.z).is_empty(), "a refused request moved tokens");
    Ok(())
}

/// scaled claims of everyone per token: positions, uncollected fees, protocol fees (times 1e12)
pub fn claims(s: &Snap) -> Result<BTreeMap<String, B>, String> {
    let e12 = p10(12);
    let mut m: BTreeMap<String, B> = BTreeMap::new();
    for (k, ps) in &s.pools {
        let e = m.entry(k.0.clone()).or_insert(B::zero());
        *e = *e + b(ps.pool.fee_protocol_token_x.0) * e12;
        let e = m.entry(k.1.clone()).or_insert(B::zero());
        *e = *e + b(ps.pool.fee_protocol_token_y.0) * e12;
    }
    for v in s.users.values() {
        for q in v {
            let k = pk(&q.pool_key);
            let ps = s.pools.get(&k).ok_or("position without pool")?;
            let (x, y) = refm::value_scaled(ps.pool.sqrt_price.get(), q.liquidity.0, q.lower_tick_index, q.upper_tick_index);
            let (gx, gy) = owed_growth(s, q).ok_or("position without tick data")?;
            let f = |g: u128| b(g) * b(q.liquidity.0) / p10(22);
            let e = m.entry(k.0.clone()).or_insert(B::zero());
            *e = *e + x + f(gx) + b(q.tokens_owed_x.0) * e12;
            let e = m.entry(k.1.clone()).or_insert(B::zero());
            *e = *e + y + f(gy) + b(q.tokens_owed_y.0) * e12;
        }
    }
    Ok(m)
}

fn c01(c: &Cx, ev: &mut Ev) -> V {
    if c.res.is_err() {
        ev.seen(case(c), true, || brief(c));
        return same_store(c);
    }
    let (ca, cz) = (claims(c.pre)?, claims(c.post)?);
    let e12 = p10(12);
    let tol = b(1_000_000);
    let toks: BTreeSet<&String> = ca.keys().chain(cz.keys()).collect();
    for t in toks {
        let z0 = B::zero();
        let (x, y) = (ca.get(t).unwrap_or(&z0), cz.get(t).unwrap_or(&z0));
        let before = b(c.a.balance(t, CONTRACT)) * e12;
        let after = b(c.z.balance(t, CONTRACT)) * e12;
        // after - cz >= before - ca - tol
        if after + *x + tol < before + *y {
            let d = (before + *y - after - *x) / e12;
            if std::env::var("DBG").is_ok() {
                for sn in [c.pre, c.post] {
                    for (k, ps) in &sn.pools {
                        println!("{:?} price {} tick {} L {} g {} {}", k, ps.pool.sqrt_price.get(), ps.pool.current_tick_index, ps.pool.liquidity.0, ps.pool.fee_growth_global_x.0, ps.pool.fee_growth_global_y.0);
                        println!("   ticks {:?}", ps.ticks);
                    }
                    for (u, v) in &sn.users {
                        for q in v {
                            let (x, y) = refm::value_scaled(sn.pools[&pk(&q.pool_key)].pool.sqrt_price.get(), q.liquidity.0, q.lower_tick_index, q.upper_tick_index);
                            println!("  {} {:?} {}..{} L {} value {} {} growth {:?}", u, pk(&q.pool_key), q.lower_tick_index, q.upper_tick_index, q.liquidity.0, x / e12, y / e12, owed_growth(sn, q));
                        }
                    }
                }
                println!("{:?}", c.exp.as_ref().map(|e| format!("{:?}", e.swaps.iter().map(|s| &s.m).collect::<Vec<_>>())));
            }
            return Err(format!("margin of {} over all claims shrank by {} units (holdings {} -> {})", t, d, c.a.balance(t, CONTRACT), c.z.balance(t, CONTRACT)));
        }
        if after + tol < *y {
            return Err(format!("holdings of {} ({}) below total claims ({})", t, c.z.balance(t, CONTRACT), *y / e12));
        }
    }
    if c.step.hook.is_some() {
        ev.count("reentrant transactions committed");
    }
    ev.seen(case(c), matches!(kind_of(&c.step.msg), "create" | "swap" | "swap_route" | "remove" | "claim" | "burn" | "withdraw_protocol_fee"), || brief(c));
    Ok(())
}

/// Closes everything on a copy, in random order. Err((transfer, message)).
pub fn liquidate(w: &World, s: &Snap, rng: &mut Rng) -> Result<u64, (bool, String)> {
    let mut f = w.clone();
    f.fail_token = None;
    f.allow.clear();
    let mut todo: Vec<(u8, String, PK)> = vec![];
    for (u, v) in &s.users {
        for _ in v {
            todo.push((0, u.clone(), Default::default()));
        }
    }
    for (k, p) in &s.pools {
        todo.push((1, p.pool.fee_receiver.clone(), k.clone()));
    }
    let mut left: BTreeMap<String, u32> = s.users.iter().map(|(u, v)| (u.clone(), v.len() as u32)).collect();
    let mut n = 0;
    while !todo.is_empty() {
        let i = rng.below(todo.len() as u64) as usize;
        let (t, u, k) = todo.swap_remove(i);
        if t == 0 {
            let l = left.get_mut(&u).unwrap();
            let idx = rng.below(*l as u64) as u32;
            if rng.chance(1, 3) {
                f.exec(&u, &ExecuteMsg::ClaimFee { index: idx }, &[]).map_err(|e| (e.is_transfer(), format!("collecting fees of position {} of {}: {:?}", idx, u, e)))?;
            }
            f.exec(&u, &ExecuteMsg::RemovePosition { index: idx }, &[]).map_err(|e| (e.is_transfer(), format!("closing position {} of {}: {:?}", idx, u, e)))?;
            *l -= 1;
        } else {
            f.exec(&u, &ExecuteMsg::WithdrawProtocolFee { pool_key: key(&k) }, &[]).map_err(|e| (e.is_transfer(), format!("withdrawing protocol fee of {:?}: {:?}", k, e)))?;
        }
        n += 1;
    }
    Ok(n)
}

fn attr(o: &Outcome, k: &str) -> Result<u128, String> {
    o.attr_u128(k).ok_or(format!("response lacks attribute {}", k))
}

/// Net movements implied by the request, the report and (for deposits/withdrawals) the amounts due.
fn net_reported(c: &Cx, o: &Outcome) -> Result<Option<BTreeMap<(String, String), i128>>, String> {
    let mut m: BTreeMap<(String, String), i128> = BTreeMap::new();
    let s = &c.step.sender;
    let mut pay = |t: &str, from: &str, to: &str, v: u128| {
        *m.entry((t.into(), from.into())).or_insert(0) -= v as i128;
        *m.entry((t.into(), to.into())).or_insert(0) += v as i128;
    };
    match &c.step.msg {
        ExecuteMsg::Swap { pool_key, x_to_y, .. } => {
            let (ti, to) = if *x_to_y { (&pool_key.token_x, &pool_key.token_y) } else { (&pool_key.token_y, &pool_key.token_x) };
            pay(ti, s, CONTRACT, attr(o, "amount_in")?);
            pay(to, CONTRACT, s, attr(o, "amount_out")?);
        }
        ExecuteMsg::SwapRoute { amount_in, swaps, .. } => {
            let (f, l) = (&swaps[0], &swaps[swaps.len() - 1]);
            let ti = if f.x_to_y { &f.pool_key.token_x } else { &f.pool_key.token_y };
            let to = if l.x_to_y { &l.pool_key.token_y } else { &l.pool_key.token_x };
            pay(ti, s, CONTRACT, amount_in.0);
            pay(to, CONTRACT, s, attr(o, "amount_out")?);
        }
        ExecuteMsg::ClaimFee { index } => {
            let q = match c.pre.users.get(s).and_then(|v| v.get(*index as usize)) {
                Some(q) => q,
                None => return Ok(None),
            };
            pay(&q.pool_key.token_x, CONTRACT, s, attr(o, "amount_x")?);
            pay(&q.pool_key.token_y, CONTRACT, s, attr(o, "amount_y")?);
        }
        _ => match c.exp {
            Ok(e) => return Ok(Some(net(e, s))),
            Err(_) => return Ok(None),
        },
    }
    m.retain(|_, v| *v != 0);
    Ok(Some(m))
}

fn c02(c: &Cx, ev: &mut Ev) -> V {
    match c.res {
        Err(_) => {
            ev.seen(case(c), true, || brief(c));
            ensure!(net_observed(c.a, c.z).is_empty(), "a refused request moved tokens");
        }
        Ok(o) => {
            if let Some(want) = net_reported(c, o)? {
                let got = net_observed(c.a, c.z);
                ev.seen(case(c), !want.is_empty(), || format!("{} moved {:?}", brief(c), got));
                ensure!(want == got, "token movements {:?} differ from what was reported/owed {:?}", got, want);
            }
            if c.pay == Pay::Short {
                return Err("accepted although the caller could not pay".into());
            }
        }
    }
    Ok(())
}

fn pool_total(s: &Snap, k: &PK, price: u128) -> (B, B) {
    let (mut x, mut y) = (B::zero(), B::zero());
    for v in s.users.values() {
        for q in v {
            if pk(&q.pool_key) == *k {
                let (a, z) = refm::value_scaled(price, q.liquidity.0, q.lower_tick_index, q.upper_tick_index);
                x = x + a;
                y = y + z;
            }
        }
    }
    (x, y)
}

fn c03(c: &Cx, ev: &mut Ev) -> V {
    let o = match c.res {
        Ok(o) => o,
        Err(_) => return Ok(()),
    };
    let k = kind_of(&c.step.msg);
    if k != "swap" && k != "swap_route" {
        return Ok(());
    }
    match c.exp {
        Err(r) => {
            ensure!(!ARITH.contains(r), "swap succeeded although the exact amounts do not fit ({})", r);
        }
        Ok(e) => {
            let crossed: usize = e.swaps.iter().map(|s| s.m.crossed.len()).sum();
            ev.seen(case(c), true, || format!("{} crossing {} ticks in {} steps", brief(c), crossed, e.swaps.iter().map(|s| s.m.steps).sum::<u32>()));
            ev.count(if crossed > 0 { "swaps crossing ticks" } else { "swaps within a range" });
            for (a, v) in &e.attrs {
                ensure!(o.attr(a) == Some(v.as_str()), "{} is {:?}, the curve gives {}", a, o.attr(a), v);
            }
            for s in &e.swaps {
                let (p, q) = (&c.post.pools[&s.pool].pool, &e.post.pools[&s.pool].pool);
                ensure!(p.sqrt_price == q.sqrt_price, "price after the swap {} should be {}", p.sqrt_price.get(), q.sqrt_price.get());
                ensure!(p.current_tick_index == q.current_tick_index, "tick after the swap {} should be {}", p.current_tick_index, q.current_tick_index);
            }
        }
    }
    // independent of the step formulas: compare with the exact value of all positions at both prices
    if let ExecuteMsg::Swap { pool_key, x_to_y, .. } = &c.step.msg {
        let k = pk(pool_key);
        let (p0, p1) = (c.pre.pools[&k].pool.sqrt_price.get(), c.post.pools[&k].pool.sqrt_price.get());
        let (v0, v1) = (pool_total(c.pre, &k, p0), pool_total(c.pre, &k, p1));
        let (ain, aout) = (b(attr(o, "amount_in")?) * p10(12), b(attr(o, "amount_out")?) * p10(12));
        let tol = b(1_000_000);
        let (gin, gout) = if *x_to_y { (v1.0.checked_sub(v0.0), v0.1.checked_sub(v1.1)) } else { (v1.1.checked_sub(v0.1), v0.0.checked_sub(v1.0)) };
        let (gin, gout) = (gin.unwrap_or(B::zero()), gout.unwrap_or(B::zero()));
        ensure!(aout <= gout + tol, "pays out {} but the positions only give up {}", aout / p10(12), gout / p10(12));
        let with_fee = gin * b(refm::ONE_PCT as u128 + k.2 as u128) / b(refm::ONE_PCT as u128);
        ensure!(ain + tol >= with_fee, "takes in {} but the positions need {} including the fee", ain / p10(12), with_fee / p10(12));
    }
    Ok(())
}

pub fn c05_state(s: &Snap) -> V {
    for (k, ps) in &s.pools {
        let m = s.model(k).unwrap();
        let want = m.active(ps.pool.current_tick_index);
        ensure!(want == b(ps.pool.liquidity.0), "pool {:?} tick {} has active liquidity {} but its in-range positions sum to {}", k, ps.pool.current_tick_index, ps.pool.liquidity.0, want);
        let mut t: BTreeMap<i32, (B, B)> = BTreeMap::new(); // (added at, removed at)
        for (lo, hi, l) in &m.pos {
            let e = t.entry(*lo).or_insert((B::zero(), B::zero()));
            e.0 = e.0 + b(*l);
            let e = t.entry(*hi).or_insert((B::zero(), B::zero()));
            e.1 = e.1 + b(*l);
        }
        for (i, (add, sub)) in &t {
            let tk = ps.ticks.get(i).ok_or(format!("tick {} of {:?} is a boundary of an open position but is not recorded", i, k))?;
            ensure!(ps.bits.contains(i), "tick {} of {:?} is a boundary of an open position but not flagged initialised", i, k);
            ensure!(tk.index == *i, "tick {} is recorded with index {}", i, tk.index);
            ensure!(tk.sqrt_price.get() == refm::price(*i), "tick {} is recorded with price {}", i, tk.sqrt_price.get());
            ensure!(b(tk.liquidity_gross.0) == *add + *sub, "tick {} of {:?}: gross liquidity {} but positions sum to {}", i, k, tk.liquidity_gross.0, *add + *sub);
            let (sign, net) = if add >= sub { (true, *add - *sub) } else { (false, *sub - *add) };
            ensure!(b(tk.liquidity_change.0) == net && (tk.sign == sign || net.is_zero()), "tick {} of {:?}: net liquidity {}{} but positions give {}{}", i, k, if tk.sign { "+" } else { "-" }, tk.liquidity_change.0, if sign { "+" } else { "-" }, net);
        }
        for i in ps.ticks.keys() {
            ensure!(t.contains_key(i), "tick {} of {:?} is recorded but no open position uses it", i, k);
        }
        for i in &ps.bits {
            ensure!(t.contains_key(i), "tick {} of {:?} is flagged initialised but no open position uses it", i, k);
        }
    }
    Ok(())
}

fn c06_state(s: &Snap) -> V {
    for (k, ps) in &s.pools {
        let (p, t, sp) = (ps.pool.sqrt_price.get(), ps.pool.current_tick_index, k.3 as i32);
        ensure!((refm::MIN_P..=refm::MAX_P).contains(&p), "price {} outside the protocol's bounds", p);
        ensure!(t % sp == 0, "current tick {} is not a multiple of spacing {}", t, sp);
        ensure!(t >= refm::min_tick(k.3) && t <= refm::max_tick(k.3), "current tick {} out of range", t);
        ensure!(refm::price(t) <= p, "price {} below the price of the current tick {}", p, t);
        if t + sp <= refm::MAX_TICK {
            ensure!(p <= refm::price(t + sp), "price {} above the interval of the current tick {}", p, t);
        }
    }
    Ok(())
}

fn c06(c: &Cx, ev: &mut Ev) -> V {
    c06_state(c.post)?;
    let mut moved: BTreeMap<PK, (bool, bool)> = BTreeMap::new();
    if c.res.is_ok() {
        match &c.step.msg {
            ExecuteMsg::Swap { pool_key, x_to_y, .. } => {
                moved.insert(pk(pool_key), (*x_to_y, !*x_to_y));
            }
            ExecuteMsg::SwapRoute { swaps, .. } => {
                for h in swaps {
                    let e = moved.entry(pk(&h.pool_key)).or_default();
                    if h.x_to_y {
                        e.0 = true
                    } else {
                        e.1 = true
                    }
                }
            }
            _ => {}
        }
    }
    for (k, ps) in &c.pre.pools {
        let q = c.post.pools.get(k).ok_or("a pool disappeared")?;
        let (p0, p1) = (ps.pool.sqrt_price.get(), q.pool.sqrt_price.get());
        let (t0, t1) = (ps.pool.current_tick_index, q.pool.current_tick_index);
        match moved.get(k) {
            None => ensure!(p0 == p1 && t0 == t1, "price or tick of {:?} changed from {}/{} to {}/{} without a swap on it", k, p0, t0, p1, t1),
            Some((true, false)) => ensure!(p1 <= p0 && t1 <= t0, "selling the first token raised the price {} -> {} (tick {} -> {})", p0, p1, t0, t1),
            Some((false, true)) => ensure!(p1 >= p0 && t1 >= t0, "selling the second token lowered the price {} -> {} (tick {} -> {})", p0, p1, t0, t1),
            _ => {}
        }
    }
    if let (Ok(_), ExecuteMsg::Swap { pool_key, x_to_y, sqrt_price_limit, .. }) = (c.res, &c.step.msg) {
        let p = c.post.pools[&pk(pool_key)].pool.sqrt_price.get();
        let l = sqrt_price_limit.get();
        ensure!(if *x_to_y { p >= l } else { p <= l }, "price {} passed the limit {}", p, l);
    }
    if let Decision::AcceptedInvalid("TickLimitReached") = decision(c) {
        return Err("a swap ran past the end of the price range".into());
    }
    ev.seen(case(c), !moved.is_empty(), || brief(c));
    Ok(())
}

/// Follow the history: call after every step.
pub fn shadow_step(sh: &mut Shadow, c: &Cx) {
    // time in range up to now, with the state before the operation
    let now = c.blk.millis();
    let dt = now - sh.last_ms;
    sh.last_ms = now;
    for ((k, lo, hi), v) in sh.time.iter_mut() {
        if let Some(ps) = c.pre.pools.get(k) {
            let t = ps.pool.current_tick_index;
            if *lo <= t && t < *hi {
                v.1 += dt;
            }
        }
    }
    if let (Ok(e), Ok(_)) = (c.exp, c.res) {
        for s in &e.swaps {
            for f in &s.m.fees {
                for (u, v) in &c.pre.users {
                    for (i, q) in v.iter().enumerate() {
                        if pk(&q.pool_key) == s.pool && q.lower_tick_index <= f.tick && f.tick < q.upper_tick_index {
                            if let Some(a) = sh.acc.get_mut(u).and_then(|x| x.get_mut(i)) {
                                if s.xy {
                                    a.gx = a.gx.wrapping_add(f.growth);
                                } else {
                                    a.gy = a.gy.wrapping_add(f.growth);
                                }
                            }
                        }
                    }
                }
            }
        }
        if e.kind == "claim" {
            if let Some((u, i)) = &e.target {
                if let Some(a) = sh.acc.get_mut(u).and_then(|x| x.get_mut(*i)) {
                    *a = Acc::default();
                }
            }
        }
        for l in &e.list {
            match l {
                ListOp::Push(u) => sh.acc.entry(u.clone()).or_default().push(Acc::default()),
                ListOp::SwapRemove(u, i) => {
                    let v = sh.acc.entry(u.clone()).or_default();
                    if *i < v.len() {
                        v.swap_remove(*i);
                    }
                }
                ListOp::Move(u, i, t) => {
                    let v = sh.acc.entry(u.clone()).or_default();
                    if *i < v.len() {
                        let a = v.swap_remove(*i);
                        sh.acc.entry(t.clone()).or_default().push(a);
                    }
                }
            }
        }
    } else if c.res.is_ok() {
        sh.valid = false;
    }
    // ranges now open
    let mut open: BTreeSet<(PK, i32, i32)> = BTreeSet::new();
    for v in c.post.users.values() {
        for q in v {
            open.insert((pk(&q.pool_key), q.lower_tick_index, q.upper_tick_index));
        }
    }
    sh.time.retain(|k, _| open.contains(k));
    for k in open {
        if !sh.time.contains_key(&k) {
            if let Some(v) = time_inside(c.post, &k, now) {
                sh.time.insert(k, (v, 0));
            }
        }
    }
}

fn time_inside(s: &Snap, k: &(PK, i32, i32), now: u64) -> Option<u64> {
    let ps = s.pools.get(&k.0)?;
    let (a, z) = (ps.ticks.get(&k.1)?, ps.ticks.get(&k.2)?);
    let age = now.wrapping_sub(ps.pool.start_timestamp);
    let t = ps.pool.current_tick_index;
    let below = if t >= k.1 { a.seconds_outside } else { age.wrapping_sub(a.seconds_outside) };
    let above = if t < k.2 { z.seconds_outside } else { age.wrapping_sub(z.seconds_outside) };
    Some(age.wrapping_sub(below).wrapping_sub(above))
}

fn c24(c: &Cx, sh: &Shadow, ev: &mut Ev) -> V {
    if !sh.valid {
        return Ok(());
    }
    for (k, (base, acc)) in &sh.time {
        let v = time_inside(c.post, k, c.blk.millis()).ok_or("missing tick data")?;
        ensure!(v.wrapping_sub(*base) == *acc, "range {:?}: recorded time inside grew by {} ms, the price was inside for {} ms", k, v.wrapping_sub(*base) as i64, acc);
        ev.seen((k, v, c.blk.millis()), *acc > 0, || format!("range {:?} inside for {} ms", k, acc));
    }
    for (k, ps) in &c.pre.pools {
        if let Some(q) = c.post.pools.get(k) {
            ensure!(ps.pool.start_timestamp == q.pool.start_timestamp, "start time of {:?} changed", k);
            if c.step.hook.is_some() {
                continue;
            }
            // a boundary counts the time on its other side: all earlier time when it starts at or below the
            // current tick, none when above; passing it turns the count round
            let age = c.blk.millis().wrapping_sub(q.pool.start_timestamp);
            let (was, is) = (ps.pool.current_tick_index, q.pool.current_tick_index);
            for (i, t) in &q.ticks {
                let want = match ps.ticks.get(i) {
                    None => if *i <= is { age } else { 0 },
                    Some(o) if (*i <= was) != (*i <= is) => age.wrapping_sub(o.seconds_outside),
                    Some(o) => o.seconds_outside,
                };
                ensure!(t.seconds_outside == want, "boundary {} of {:?} records {} ms outside, should be {} (pool age {} ms, current tick {} -> {})", i, k, t.seconds_outside, want, age, was, is);
                ev.seen((k, i, t.seconds_outside, age), t.seconds_outside > 0, || format!("boundary {} outside {} of {}", i, t.seconds_outside, age));
            }
        }
    }
    if let (Ok(e), Ok(_)) = (c.exp, c.res) {
        for (k, q) in &e.post.pools {
            if let Some(p) = c.post.pools.get(k) {
                ensure!(p.pool.last_timestamp == q.pool.last_timestamp, "last update time of {:?} is {} after {} at {}, should be {}", k, p.pool.last_timestamp, e.kind, c.blk.millis(), q.pool.last_timestamp);
                ensure!(p.pool.start_timestamp == q.pool.start_timestamp, "start time of {:?} is {}, should be {}", k, p.pool.start_timestamp, q.pool.start_timestamp);
            }
        }
        if let Some(ListOp::Push(u)) = e.list.first() {
            if let Some(q) = c.post.users.get(u).and_then(|v| v.last()) {
                ensure!(q.last_block_number == c.blk.height, "new position records block {} instead of {}", q.last_block_number, c.blk.height);
            }
        }
        if c.step.hook.is_none() {
            for (u, v) in &e.post.users {
                let Some(got) = c.post.users.get(u).filter(|g| g.len() == v.len()) else { continue };
                for (i, (g, w)) in got.iter().zip(v).enumerate() {
                    ensure!(g.last_block_number == w.last_block_number, "position {} of {} records block {} after {}, it was opened in {}", i, u, g.last_block_number, e.kind, w.last_block_number);
                }
            }
        }
    }
    Ok(())
}

fn c07_probe(w: &World, s: &Snap, sh: &Shadow, rng: &mut Rng, ev: &mut Ev, all: bool) -> V {
    if !sh.valid {
        return Ok(());
    }
    let mut f = w.clone();
    f.fail_token = None;
    for (u, v) in &s.users {
        for (i, q) in v.iter().enumerate() {
            if !all && rng.chance(2, 3) {
                continue;
            }
            let a = match sh.acc.get(u).and_then(|x| x.get(i)) {
                Some(a) => a,
                None => continue,
            };
            let (wx, wy) = (growth_to_fee(a.gx, q.liquidity.0), growth_to_fee(a.gy, q.liquidity.0));
            let msg = ExecuteMsg::ClaimFee { index: i as u32 };
            match f.exec(u, &msg, &[]) {
                Ok(o) => {
                    let (x, y) = (attr(&o, "amount_x")?, attr(&o, "amount_y")?);
                    ensure!(Some(x) == wx && Some(y) == wy, "position {} of {} ({}..{} liquidity {}) can collect ({}, {}), its share of the fees charged in its range is ({:?}, {:?})", i, u, q.lower_tick_index, q.upper_tick_index, q.liquidity.0, x, y, wx, wy);
                    let got: u128 = o.flows.iter().filter(|f| f.from == CONTRACT && f.to == *u && f.token == q.pool_key.token_x).map(|f| f.amount).sum();
                    ensure!(got == x, "reported {} of the first token but paid {}", x, got);
                    ev.seen((state_hash(s), u, i), x > 0 || y > 0, || format!("claim by {} of range {}..{}: ({}, {})", u, q.lower_tick_index, q.upper_tick_index, x, y));
                    if rng.chance(1, 4) {
                        if let Ok(o) = f.exec(u, &msg, &[]) {
                            ensure!(attr(&o, "amount_x")? == 0 && attr(&o, "amount_y")? == 0, "collecting twice paid twice");
                        }
                    }
                }
                Err(e) => {
                    ensure!(wx.is_none() || wy.is_none(), "fees of position {} of {} cannot be collected: {:?}", i, u, e);
                }
            }
        }
    }
    Ok(())
}

fn c07(c: &Cx, sh: &Shadow, ev: &mut Ev) -> V {
    // sh is the history before this step
    if !sh.valid {
        return Ok(());
    }
    let o = match c.res {
        Ok(o) => o,
        Err(_) => return Ok(()),
    };
    if let Ok(e) = c.exp {
        if matches!(e.kind, "claim" | "remove" | "burn") {
            if let Some((u, i)) = &e.target {
                if let (Some(a), Some(q)) = (sh.acc.get(u).and_then(|x| x.get(*i)), c.pre.users.get(u).and_then(|v| v.get(*i))) {
                    let l = q.liquidity.0;
                    let (fx, fy) = (growth_to_fee(a.gx, l), growth_to_fee(a.gy, l));
                    let (mut x, mut y) = (0, 0);
                    if e.kind != "claim" {
                        let p = &c.pre.pools[&pk(&q.pool_key)].pool;
                        let d = refm::amount_delta(p.current_tick_index, p.sqrt_price.get(), l, false, q.lower_tick_index, q.upper_tick_index)?;
                        x = d.0;
                        y = d.1;
                    }
                    let got = net_observed(c.a, c.z);
                    let gx = -got.get(&(q.pool_key.token_x.clone(), CONTRACT.into())).copied().unwrap_or(0);
                    let gy = -got.get(&(q.pool_key.token_y.clone(), CONTRACT.into())).copied().unwrap_or(0);
                    let (wx, wy) = (fx.unwrap_or(0) as i128 + x as i128, fy.unwrap_or(0) as i128 + y as i128);
                    ensure!(gx == wx && gy == wy, "{} paid ({}, {}), the position's principal ({}, {}) and fees earned ({:?}, {:?}) add up to ({}, {})", e.kind, gx, gy, x, y, fx, fy, wx, wy);
                    ev.seen(case(c), fx != Some(0) || fy != Some(0), || brief(c));
                }
            }
        }
        // growth credited by swaps
        for s in &e.swaps {
            let (p, q) = (&c.post.pools[&s.pool].pool, &e.post.pools[&s.pool].pool);
            let old = &c.pre.pools[&s.pool].pool;
            if p.fee_growth_global_x.0 < old.fee_growth_global_x.0 || p.fee_growth_global_y.0 < old.fee_growth_global_y.0 {
                ev.count("fee growth wrapped around");
            }
            ensure!(p.fee_growth_global_x == q.fee_growth_global_x && p.fee_growth_global_y == q.fee_growth_global_y, "fee growth after the swap is ({}, {}), the fees charged give ({}, {})", p.fee_growth_global_x.0, p.fee_growth_global_y.0, q.fee_growth_global_x.0, q.fee_growth_global_y.0);
        }
    }
    let _ = o;
    Ok(())
}

fn c08(c: &Cx, ev: &mut Ev) -> V {
    match decision(c) {
        Decision::AcceptedInvalid("Unauthorized") if kind_of(&c.step.msg) == "withdraw_protocol_fee" => {
            return Err(format!("{} withdrew the protocol fee without being the receiver", c.step.sender))
        }
        Decision::RefusedValid if kind_of(&c.step.msg) == "withdraw_protocol_fee" => return Err(format!("the fee receiver's withdrawal was refused: {:?}", c.res)),
        _ => {}
    }
    if c.res.is_err() {
        for (k, ps) in &c.pre.pools {
            let q = &c.post.pools[k].pool;
            ensure!(q.fee_protocol_token_x == ps.pool.fee_protocol_token_x && q.fee_protocol_token_y == ps.pool.fee_protocol_token_y, "a refused request changed the protocol fee of {:?}", k);
        }
        return Ok(());
    }
    if let Ok(e) = c.exp {
        for (k, ps) in &e.post.pools {
            let q = match c.post.pools.get(k) {
                Some(q) => &q.pool,
                None => continue,
            };
            let (w, g) = ((ps.pool.fee_protocol_token_x.0, ps.pool.fee_protocol_token_y.0), (q.fee_protocol_token_x.0, q.fee_protocol_token_y.0));
            ensure!(w == g, "protocol fee of {:?} is {:?} after {}, should be {:?}", k, g, e.kind, w);
        }
        for s in &e.swaps {
            let (p, q) = (&c.post.pools[&s.pool].pool, &e.post.pools[&s.pool].pool);
            ensure!(p.fee_growth_global_x == q.fee_growth_global_x && p.fee_growth_global_y == q.fee_growth_global_y, "the liquidity providers' part of the fee is not the rest after the protocol's share");
        }
        if e.kind == "withdraw_protocol_fee" {
            let (w, g) = (net(e, &c.step.sender), net_observed(c.a, c.z));
            ensure!(w == g, "withdrawal moved {:?}, accrued was {:?}", g, w);
            let mut x = c.pre.clone();
            if let ExecuteMsg::WithdrawProtocolFee { pool_key } = &c.step.msg {
                let p = &mut x.pools.get_mut(&pk(pool_key)).unwrap().pool;
                p.fee_protocol_token_x = TokenAmount(0);
                p.fee_protocol_token_y = TokenAmount(0);
            }
            ensure!(x == *c.post, "withdrawing the protocol fee changed something else");
            ev.seen(case(c), !w.is_empty(), || format!("{} moved {:?}", brief(c), g));
        } else {
            ev.seen(case(c), e.swaps.iter().any(|s| s.m.fees.iter().any(|f| f.protocol > 0)), || brief(c));
        }
    }
    Ok(())
}

const ADMIN_KINDS: [&str; 5] = ["change_admin", "change_protocol_fee", "change_fee_receiver", "add_fee_tier", "remove_fee_tier"];

fn c09(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    let is = ADMIN_KINDS.contains(&k);
    match decision(c) {
        Decision::AcceptedInvalid("Unauthorized") if is => return Err(format!("{} by {} accepted, the admin is {}", k, c.step.sender, c.pre.admin)),
        Decision::RefusedValid if is => return Err(format!("{} by the admin refused: {:?}", k, c.res)),
        _ => {}
    }
    let want = match (c.exp, c.res) {
        (Ok(e), Ok(_)) => &e.post,
        (_, Err(_)) => c.pre,
        _ => return Ok(()),
    };
    ensure!(c.post.admin == want.admin, "admin is {} after {}, should be {}", c.post.admin, k, want.admin);
    ensure!(c.post.protocol_fee == want.protocol_fee, "protocol fee is {} after {}, should be {}", c.post.protocol_fee, k, want.protocol_fee);
    let set = |s: &Snap| s.tiers.iter().copied().collect::<BTreeSet<_>>();
    ensure!(set(c.post) == set(want), "fee tiers after {} are {:?}, should be {:?}", k, c.post.tiers, want.tiers);
    for (p, w) in &want.pools {
        let g = c.post.pools.get(p).ok_or(format!("pool {:?} disappeared", p))?;
        ensure!(g.pool.fee_receiver == w.pool.fee_receiver, "fee receiver of {:?} is {} after {}, should be {}", p, g.pool.fee_receiver, k, w.pool.fee_receiver);
    }
    if is && c.res.is_ok() {
        ensure!(c.post.users == c.pre.users && c.post.operators == c.pre.operators, "{} changed positions", k);
        ensure!(net_observed(c.a, c.z).is_empty(), "{} moved tokens", k);
        let mut rest = want.clone();
        rest.tiers = c.post.tiers.clone();
        ensure!(rest == *c.post, "{} changed something else", k);
    }
    ev.seen(case(c), is || k == "create_pool", || brief(c));
    Ok(())
}

fn core(p: &Position) -> (PK, i32, i32, u128, u64) {
    (pk(&p.pool_key), p.lower_tick_index, p.upper_tick_index, p.liquidity.0, p.last_block_number)
}

fn c10(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    match decision(c) {
        Decision::AcceptedInvalid("Unauthorized" | "NoPosition") if matches!(k, "transfer" | "transfer_nft" | "send_nft" | "burn" | "remove") => {
            return Err(format!("{} by {} accepted without right or without such a position", k, c.step.sender))
        }
        Decision::RefusedValid if matches!(k, "transfer" | "transfer_nft" | "send_nft") => return Err(format!("{} by a permitted party refused: {:?}", k, c.res)),
        _ => {}
    }
    let want = match (c.exp, c.res) {
        (Ok(e), Ok(_)) => &e.post,
        (_, Err(_)) => c.pre,
        _ => return Ok(()),
    };
    for (u, w) in &want.users {
        let g = c.post.users.get(u).cloned().unwrap_or_default();
        let (gc, wc): (Vec<_>, Vec<_>) = (g.iter().map(core).collect(), w.iter().map(core).collect());
        ensure!(gc == wc, "positions of {} after {} by {} are {:?}, should be {:?}", u, k, c.step.sender, gc, wc);
    }
    if let (Ok(e), Ok(o)) = (c.exp, c.res) {
        if let (Some(ListOp::Move(u, i, t)), true) = (e.list.first(), true) {
            let (old, new) = (&c.pre.users[u][*i], c.post.users[t].last().unwrap());
            ensure!(new.approvals.is_empty(), "a moved position keeps its approvals");
            let mut x = old.clone();
            x.approvals.clear();
            ensure!(x == *new, "a moved position changed from {:?} to {:?}", old, new);
            if e.kind == "send_nft" {
                let id = token_id(t, c.post.users[t].len() as u32 - 1);
                let ok = o.sends.iter().any(|(a, j)| a == t && j.contains(&id.to_base64()));
                ensure!(ok, "the receiving contract was not told the identifier of the position it now owns: {:?}", o.sends);
            }
        }
    }
    ev.seen(case(c), c.exp.as_ref().map_or(false, |e| !e.list.is_empty()), || brief(c));
    Ok(())
}

/// identifiers, counts and listings agree
fn c10_listing(w: &World, s: &Snap) -> V {
    let mut all: BTreeSet<Vec<u8>> = BTreeSet::new();
    for (u, v) in &s.users {
        ensure!(w.query::<Position>(QueryMsg::Position { owner_id: addr(u), index: v.len() as u32 }).is_err(), "{} has a position beyond the count {}", u, v.len());
        for (i, q) in v.iter().enumerate() {
            let id = token_id(u, i as u32);
            all.insert(id.to_vec());
            let o: OwnerOfResponse = w.query(QueryMsg::OwnerOf { token_id: id.clone(), include_expired: Some(true) }).map_err(|e| format!("owner query failed: {:?}", e))?;
            ensure!(o.owner == *u, "owner of {}'s position {} is {}", u, i, o.owner);
            let n: NftInfoResponse = w.query(QueryMsg::NftInfo { token_id: id.clone() }).map_err(|e| format!("info query failed: {:?}", e))?;
            ensure!(n.extension == *q, "info of {}'s position {} differs from the position", u, i);
            let n: AllNftInfoResponse = w.query(QueryMsg::AllNftInfo { token_id: id, include_expired: Some(true) }).map_err(|e| format!("info query failed: {:?}", e))?;
            ensure!(n.info.extension == *q && n.access.owner == *u && n.access.approvals == q.approvals, "full info of {}'s position {} differs", u, i);
        }
    }
    let mut got: Vec<Vec<u8>> = vec![];
    loop {
        let r: TokensResponse = w.query(QueryMsg::AllTokens { start_after: got.last().map(|x| Binary(x.clone())), limit: Some(100) }).map_err(|e| format!("all tokens query failed: {:?}", e))?;
        let n = r.tokens.len();
        got.extend(r.tokens.into_iter().map(|b| b.to_vec()));
        if n < 100 || got.len() > 100_000 {
            break;
        }
    }
    let set: BTreeSet<Vec<u8>> = got.iter().cloned().collect();
    ensure!(set == all && set.len() == got.len(), "the listing of all positions has {} entries, {} positions are open", got.len(), all.len());
    Ok(())
}

const NFT_KINDS: [&str; 7] = ["transfer_nft", "send_nft", "burn", "approve", "revoke", "approve_all", "revoke_all"];

fn c11(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    let is = NFT_KINDS.contains(&k);
    match decision(c) {
        Decision::AcceptedInvalid(r @ ("Unauthorized" | "Expired" | "NoPosition")) if is => return Err(format!("{} by {} accepted although {}", k, c.step.sender, r)),
        Decision::RefusedValid if is => return Err(format!("{} by {} (permitted) refused: {:?}", k, c.step.sender, c.res)),
        _ => {}
    }
    let want = match (c.exp, c.res) {
        (Ok(e), Ok(_)) => &e.post,
        (_, Err(_)) => c.pre,
        _ => return Ok(()),
    };
    for (u, w) in &want.users {
        let g = c.post.users.get(u).cloned().unwrap_or_default();
        let (gc, wc): (Vec<_>, Vec<_>) = (g.iter().map(|p| (core(p), p.approvals.clone())).collect(), w.iter().map(|p| (core(p), p.approvals.clone())).collect());
        if is || k == "transfer" || k == "remove" || k == "claim" {
            ensure!(gc == wc, "positions and approvals of {} after {} by {} are {:?}, should be {:?}", u, k, c.step.sender, gc, wc);
        } else {
            ensure!(gc.iter().map(|x| &x.1).eq(wc.iter().map(|x| &x.1)), "approvals of {} after {} by {} are {:?}, should be {:?}", u, k, c.step.sender, gc, wc);
        }
        // what the approval query shows now
        for (i, q) in w.iter().enumerate() {
            if q.approvals.is_empty() {
                continue;
            }
            let live: Vec<Approval> = q.approvals.iter().filter(|a| !c.blk.expired(&a.expires)).cloned().collect();
            for include_expired in [None, Some(false), Some(true)] {
                let id = token_id(u, i as u32);
                let want = if include_expired == Some(true) { &q.approvals } else { &live };
                let o: OwnerOfResponse = c.z.query(QueryMsg::OwnerOf { token_id: id.clone(), include_expired }).map_err(|e| format!("owner query failed: {:?}", e))?;
                ensure!(o.approvals == *want, "approvals shown for {}'s position {} (expired ones included: {:?}) are {:?}, should be {:?}", u, i, include_expired, o.approvals, want);
                let n: AllNftInfoResponse = c.z.query(QueryMsg::AllNftInfo { token_id: id, include_expired }).map_err(|e| format!("info query failed: {:?}", e))?;
                ensure!(n.access.approvals == *want, "approvals shown in the full info of {}'s position {} (expired ones included: {:?}) are {:?}, should be {:?}", u, i, include_expired, n.access.approvals, want);
            }
        }
    }
    for (u, w) in &want.operators {
        let g = c.post.operators.get(u).cloned().unwrap_or_default();
        ensure!(g == *w, "operators of {} after {} are {:?}, should be {:?}", u, k, g, w);
        let live: Vec<Approval> = w.iter().filter(|a| !c.blk.expired(&a.expires)).cloned().collect();
        if !w.is_empty() && w.len() <= 100 {
            let o: ApprovedForAllResponse = c.z.query(QueryMsg::ApprovedForAll { owner: addr(u), include_expired: None, start_after: None, limit: None }).map_err(|e| format!("operator query failed: {:?}", e))?;
            ensure!(o.operators == live, "unexpired operators shown for {} are {:?}, should be {:?}", u, o.operators, live);
        }
    }
    if let (Ok(e), Ok(_)) = (c.exp, c.res) {
        if e.kind == "burn" {
            let (owner, _) = e.target.clone().unwrap();
            let (w, g) = (net(e, &c.step.sender), net_observed(c.a, c.z));
            ensure!(w == g, "burn of {}'s position by {} moved {:?}, should be {:?}", owner, c.step.sender, g, w);
            if owner != c.step.sender {
                ev.count("delegated burns");
            }
        }
        if is {
            ev.count(k);
        }
    }
    ev.seen(case(c), is, || brief(c));
    Ok(())
}

fn c13(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    match decision(c) {
        Decision::AcceptedInvalid(r @ ("Slippage" | "WrongLimit" | "PriceLimitReached" | "TickLimitReached" | "MinOut" | "NoGainSwap" | "BadSlippage")) => return Err(format!("{} accepted although {}", k, r)),
        Decision::RefusedValid if k == "create" => return Err(format!("deposit within the caller's price bounds refused: {:?}", c.res)),
        Decision::RefusedValid if k == "swap_route" => return Err(format!("route giving at least the minimum refused: {:?}", c.res)),
        Decision::RefusedValid if k == "swap" => {
            if let Err(ErrKind::Contract(v, _)) = c.res {
                ensure!(v != "PriceLimitReached" && v != "WrongLimit", "swap that completes within its limit refused for its limit");
            }
        }
        _ => {}
    }
    if let Ok(o) = c.res {
        match &c.step.msg {
            ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
                let p = c.post.pools[&pk(pool_key)].pool.sqrt_price.get();
                let l = sqrt_price_limit.get();
                ensure!(if *x_to_y { p >= l } else { p <= l }, "price {} passed the limit {}", p, l);
                let (i, q) = (attr(o, "amount_in")?, attr(o, "amount_out")?);
                ensure!(q > 0, "swap took {} and gave nothing", i);
                if *by_amount_in {
                    ensure!(i == amount.0, "exact-input swap of {} took {}", amount.0, i);
                } else {
                    ensure!(q <= amount.0, "exact-output swap of {} gave {}", amount.0, q);
                    if let Ok(e) = c.exp {
                        let (wi, wo) = (e.swaps[0].m.ain, e.swaps[0].m.aout);
                        ensure!(q == wo && i <= wi, "exact-output swap gave {} for {}, should be {} for {}", q, i, wo, wi);
                    }
                }
            }
            ExecuteMsg::SwapRoute { expected_amount_out, slippage, .. } => {
                let out = attr(o, "amount_out")?;
                // out >= expected * (1 - slippage), exactly
                let lhs = b(out) * b(refm::ONE_PCT as u128);
                let rhs = b(expected_amount_out.0) * b(refm::ONE_PCT.saturating_sub(slippage.0) as u128);
                ensure!(lhs >= rhs, "route gave {} against expected {} with slippage {}", out, expected_amount_out.0, slippage.0);
            }
            _ => {}
        }
    }
    ev.seen(case(c), matches!(k, "swap" | "swap_route" | "create"), || brief(c));
    if let Err(r) = c.exp {
        ev.count(&format!("refusal expected: {}", r));
    }
    Ok(())
}

fn c14(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    let is = matches!(k, "create_pool" | "add_fee_tier" | "remove_fee_tier");
    match decision(c) {
        Decision::AcceptedInvalid(r) if is => return Err(format!("{:?} accepted although {}", c.step.msg, r)),
        Decision::RefusedValid if is => return Err(format!("valid {:?} refused: {:?}", c.step.msg, c.res)),
        Decision::RefusedValid => {
            if let Ok(e) = c.exp {
                for p in e.touched.keys() {
                    ensure!(c.pre.tiers.contains(&(p.2, p.3)), "{} on a pool whose fee tier was removed is refused: {:?}", k, c.res);
                }
            }
        }
        _ => {}
    }
    let want = match (c.exp, c.res) {
        (Ok(e), Ok(_)) => &e.post,
        (_, Err(_)) => c.pre,
        _ => return Ok(()),
    };
    let ts: BTreeSet<(u64, u16)> = c.post.tiers.iter().copied().collect();
    ensure!(ts.len() == c.post.tiers.len(), "a fee tier is listed twice: {:?}", c.post.tiers);
    ensure!(ts == want.tiers.iter().copied().collect(), "fee tiers are {:?}, should be {:?}", c.post.tiers, want.tiers);
    ensure!(c.post.pools.keys().eq(want.pools.keys()), "pools are {:?}, should be {:?}", c.post.pools.keys(), want.pools.keys());
    if let (Ok(e), Ok(_)) = (c.exp, c.res) {
        // a pool whose fee tier was removed works as before
        for p in e.touched.keys().filter(|p| !c.pre.tiers.contains(&(p.2, p.3))) {
            ensure!(c.post.pools[p].pool == want.pools[p].pool, "{} on pool {:?}, whose fee tier was removed, leaves it as {:?}, should be {:?}", k, p, c.post.pools[p].pool, want.pools[p].pool);
            ev.count("operations on pools of removed tiers");
        }
    }
    if is {
        for (p, q) in &want.pools {
            ensure!(c.post.pools[p].pool == q.pool, "pool {:?} is {:?}, should be {:?}", p, c.post.pools[p].pool, q.pool);
            for (a, z) in [(&p.0, &p.1), (&p.1, &p.0)] {
                let g: Result<Pool, _> = c.z.query(QueryMsg::Pool { token_0: a.clone(), token_1: z.clone(), fee_tier: tier((p.2, p.3)) });
                ensure!(g.as_ref().ok() == Some(&q.pool), "pool {:?} looked up as ({}, {}) gives {:?}", p, a, z, g);
            }
        }
        if let ExecuteMsg::AddFeeTier { fee_tier } | ExecuteMsg::RemoveFeeTier { fee_tier } | ExecuteMsg::CreatePool { fee_tier, .. } = &c.step.msg {
            let e: bool = c.z.query(QueryMsg::FeeTierExist { fee_tier: *fee_tier }).map_err(|e| format!("{:?}", e))?;
            ensure!(e == want.tiers.contains(&(fee_tier.fee.0, fee_tier.tick_spacing)), "fee tier existence of {:?} reported as {}", fee_tier, e);
        }
        if let Err(r) = c.exp {
            ev.count(&format!("refusal expected: {}", r));
        }
    }
    ev.seen(case(c), is, || brief(c));
    Ok(())
}

fn c16(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    let is = matches!(k, "swap" | "swap_route" | "claim" | "remove" | "burn" | "withdraw_protocol_fee");
    if !is {
        return Ok(());
    }
    if decision(c) == Decision::RefusedValid {
        if k == "swap_route" {
            // the output condition is another matter
            if let Err(ErrKind::Contract(v, _)) = c.res {
                if v == "AmountUnderMinimumAmountOut" {
                    return Ok(());
                }
            }
        }
        let d = c.exp.as_ref().unwrap().swaps.iter().map(|s| format!("would exchange {} for {}, price {} -> {}", s.m.ain, s.m.aout, s.price_before, s.m.price)).collect::<Vec<_>>();
        return Err(format!("{} that can be served is refused: {:?} {:?}", k, c.res, d));
    }
    ev.seen(case(c), true, || brief(c));
    ev.count(&match c.exp {
        Ok(_) => format!("{} servable", k),
        Err(r) => format!("{} refusal reason: {}", k, r),
    });
    Ok(())
}

fn c17(c: &Cx, ev: &mut Ev) -> V {
    let e = match c.exp {
        Ok(e) => e,
        Err(_) => return Ok(()),
    };
    if !matches!(e.kind, "create" | "swap" | "swap_route") {
        return Ok(());
    }
    let coins: Vec<&String> = e.coins.iter().filter(|x| is_native(x)).collect();
    if coins.is_empty() {
        return Ok(());
    }
    let due = native_due(e);
    let short = due.iter().any(|(t, n)| c.step.funds.iter().filter(|x| x.denom == *t).map(|x| x.amount.u128()).sum::<u128>() < *n);
    let s = &c.step.sender;
    match c.res {
        Ok(_) => {
            ensure!(!short, "accepted with attached {:?} although {:?} is owed", c.step.funds, due);
            let got = net_observed(c.a, c.z);
            let want = net(e, s);
            for t in coins {
                for who in [s.as_str(), CONTRACT] {
                    let kk = (t.clone(), who.to_string());
                    let (g, w) = (got.get(&kk).copied().unwrap_or(0), want.get(&kk).copied().unwrap_or(0));
                    ensure!(g == w, "{}'s net change in {} is {} with attached {:?}, owed/earned amounts give {}", who, t, g, c.step.funds, w);
                }
            }
            let over = c.step.funds.iter().any(|f| f.amount.u128() > due.get(&f.denom).copied().unwrap_or(0));
            ev.count(if over { "excess attached" } else { "exact amount attached" });
        }
        Err(er) => {
            ensure!(c.pay != Pay::Ok, "refused although {:?} was attached and {:?} is owed: {:?}", c.step.funds, due, er);
            ensure!(c.a.store.data == c.z.store.data && net_observed(c.a, c.z).is_empty(), "a refused request left a trace");
            if short {
                ev.count("refused for too little attached");
            }
        }
    }
    ev.seen((case(c), format!("{:?}", c.step.funds)), true, || brief(c));
    Ok(())
}

fn c18(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    if c.res.is_err() {
        ensure!(c.pre == c.post, "a refused {} changed observable data", k);
        same_store(c)?;
        ev.seen(case(c), true, || brief(c));
        return Ok(());
    }
    let e = match c.exp {
        Ok(e) => e,
        Err(_) => return Ok(()),
    };
    for (p, a) in &c.pre.pools {
        let z = c.post.pools.get(p).ok_or(format!("pool {:?} disappeared", p))?;
        match e.touched.get(p) {
            None => ensure!(a == z, "{} changed pool {:?} it does not concern", k, p),
            Some(ts) => {
                for i in a.ticks.keys().chain(z.ticks.keys()) {
                    if !ts.contains(i) {
                        ensure!(a.ticks.get(i) == z.ticks.get(i), "{} changed tick {} of {:?} it does not concern: {:?} -> {:?}", k, i, p, a.ticks.get(i), z.ticks.get(i));
                    }
                }
                for i in a.bits.symmetric_difference(&z.bits) {
                    ensure!(ts.contains(i), "{} flipped tick {} of {:?} it does not concern", k, i, p);
                }
                let (x, y, w) = (&a.pool, &z.pool, &e.post.pools[p].pool);
                if e.swaps.is_empty() {
                    ensure!(y == w, "{} left pool {:?} as {:?}, should be {:?}", k, p, y, w);
                } else {
                    ensure!(x.fee_receiver == y.fee_receiver && x.start_timestamp == y.start_timestamp, "a swap changed administrative data of {:?}", p);
                    let dirs: BTreeSet<bool> = e.swaps.iter().filter(|s| s.pool == *p).map(|s| s.xy).collect();
                    if !dirs.contains(&true) {
                        ensure!(x.fee_growth_global_x == y.fee_growth_global_x && x.fee_protocol_token_x == y.fee_protocol_token_x, "a swap changed the fees of the token it does not take in");
                    }
                    if !dirs.contains(&false) {
                        ensure!(x.fee_growth_global_y == y.fee_growth_global_y && x.fee_protocol_token_y == y.fee_protocol_token_y, "a swap changed the fees of the token it does not take in");
                    }
                }
            }
        }
    }
    for p in c.post.pools.keys() {
        ensure!(c.pre.pools.contains_key(p) || k == "create_pool", "{} created pool {:?}", k, p);
    }
    // positions: everything but the target and a new one is identical
    for (u, w) in &e.post.users {
        let g = c.post.users.get(u).cloned().unwrap_or_default();
        ensure!(g.len() == w.len(), "{} has {} positions after {}, should have {}", u, g.len(), k, w.len());
        for (i, (x, y)) in g.iter().zip(w.iter()).enumerate() {
            let fresh = e.kind == "create" && *u == c.step.sender && i + 1 == g.len();
            let claimed = e.kind == "claim" && e.target.as_ref() == Some(&(u.clone(), i));
            if fresh || claimed {
                let mut x = x.clone();
                x.fee_growth_inside_x = y.fee_growth_inside_x;
                x.fee_growth_inside_y = y.fee_growth_inside_y;
                ensure!(x.tokens_owed_x.0 == 0 && x.tokens_owed_y.0 == 0, "fees left in the position after {}", k);
                x.tokens_owed_x = y.tokens_owed_x;
                x.tokens_owed_y = y.tokens_owed_y;
                ensure!(x == *y, "position {} of {} is {:?}, should be {:?}", i, u, x, y);
            } else {
                ensure!(x == y, "{} by {} changed position {} of {}: {:?}, should be {:?}", k, c.step.sender, i, u, x, y);
            }
        }
    }
    ensure!(c.post.operators == e.post.operators, "{} left operators as {:?}, should be {:?}", k, c.post.operators, e.post.operators);
    ensure!(c.post.admin == e.post.admin && c.post.protocol_fee == e.post.protocol_fee && c.post.tiers.len() == e.post.tiers.len(), "{} changed the configuration", k);
    ev.seen(case(c), true, || brief(c));
    Ok(())
}

fn c23(c: &Cx, rng: &mut Rng, ev: &mut Ev) -> V {
    let e = match (c.exp, c.res) {
        (Ok(e), Ok(_)) => e,
        _ => return Ok(()),
    };
    if !matches!(e.kind, "create" | "remove" | "burn") {
        return Ok(());
    }
    let (k, lo, hi, l) = if e.kind == "create" {
        let q = c.post.users.get(&c.step.sender).and_then(|v| v.last()).ok_or("no position after a deposit")?;
        (pk(&q.pool_key), q.lower_tick_index, q.upper_tick_index, q.liquidity.0)
    } else {
        let (u, i) = e.target.clone().unwrap();
        let q = &c.pre.users[&u][i];
        (pk(&q.pool_key), q.lower_tick_index, q.upper_tick_index, q.liquidity.0)
    };
    let got = net_observed(c.a, c.z);
    let g = |t: &String| got.get(&(t.clone(), CONTRACT.to_string())).copied().unwrap_or(0);
    let (gx, gy) = (g(&k.0), g(&k.1));
    let want = net(e, &c.step.sender);
    let w = |t: &String| want.get(&(t.clone(), CONTRACT.to_string())).copied().unwrap_or(0);
    ensure!(gx == w(&k.0) && gy == w(&k.1), "{} of liquidity {} in {}..{} changed the contract's holdings by ({}, {}), should be ({}, {})", e.kind, l, lo, hi, gx, gy, w(&k.0), w(&k.1));
    // independent bounds from the exact value of the range
    let p = c.pre.pools[&k].pool.sqrt_price.get();
    let tick = c.pre.pools[&k].pool.current_tick_index;
    let (vx, vy) = refm::value_scaled(p, l, lo, hi);
    let e12 = p10(12);
    if e.kind == "create" {
        ensure!(b(gx as u128) * e12 + b(1_000_000) >= vx && b(gy as u128) * e12 + b(1_000_000) >= vy, "deposit took ({}, {}), less than its exact value", gx, gy);
        if tick < lo {
            ensure!(gy == 0, "deposit above the price took {} of the second token", gy);
        }
        if tick >= hi {
            ensure!(gx == 0, "deposit below the price took {} of the first token", gx);
        }
        // at once withdrawing returns no more, and loses only the rounding
        if rng.chance(1, 2) {
            let mut f = c.z.clone();
            let idx = c.post.users[&c.step.sender].len() as u32 - 1;
            let before = f.clone();
            if let Ok(_) = f.exec(&c.step.sender, &ExecuteMsg::RemovePosition { index: idx }, &[]) {
                let back = net_observed(&before, &f);
                let bk = |t: &String| back.get(&(t.clone(), c.step.sender.clone())).copied().unwrap_or(0);
                let (bx, by) = (bk(&k.0), bk(&k.1));
                ensure!(bx <= gx && by <= gy, "depositing ({}, {}) and withdrawing at once returned ({}, {})", gx, gy, bx, by);
                let wd = refm::amount_delta(tick, p, l, false, lo, hi)?;
                ensure!(bx == wd.0 as i128 && by == wd.1 as i128, "withdrawing at once returned ({}, {}), the formulas give {:?}", bx, by, wd);
                ev.count("deposit-withdraw round trips");
            }
        }
    } else {
        let q = &c.pre.users[&e.target.as_ref().unwrap().0][e.target.as_ref().unwrap().1];
        let (fx, fy) = fees_observed(c.pre, q).unwrap_or((0, 0));
        let (px, py) = (-gx - fx as i128, -gy - fy as i128);
        ensure!(px >= 0 && py >= 0, "withdrawal paid ({}, {}), less than the fees alone ({}, {})", -gx, -gy, fx, fy);
        ensure!(b(px as u128) * e12 <= vx + b(1_000_000) && b(py as u128) * e12 <= vy + b(1_000_000), "withdrawal paid ({}, {}) beyond the fees, more than its exact value", px, py);
    }
    ev.seen(case(c), true, || format!("{} moved ({}, {})", brief(c), gx, gy));
    Ok(())
}

fn c25(c: &Cx, ev: &mut Ev) -> V {
    let k = kind_of(&c.step.msg);
    match decision(c) {
        Decision::AcceptedInvalid(r @ ("NoPool" | "NoPosition" | "AmountIsZero" | "ZeroLiquidity" | "RangeOrder" | "BadTick" | "TickCap" | "BadId" | "BadAddress" | "Slippage" | "TickLimitReached" | "PoolLiquidity")) => {
            return Err(format!("{:?} accepted although {}", c.step.msg, r))
        }
        Decision::AcceptedInvalid(r) if k == "create" => return Err(format!("{:?} accepted although {}", c.step.msg, r)),
        Decision::AcceptedUnpaid if k == "create" => return Err("deposit accepted although the caller could not pay".into()),
        Decision::RefusedValid if k == "create" => return Err(format!("well-formed deposit {:?} refused: {:?}", c.step.msg, c.res)),
        _ => {}
    }
    if c.res.is_err() {
        same_store(c)?;
    }
    if k == "create" || c.exp.is_err() {
        ev.count(&match c.exp {
            Ok(_) => format!("{} well-formed", k),
            Err(r) => format!("{} expected refusal: {}", k, r),
        });
        ev.seen(case(c), true, || brief(c));
    }
    Ok(())
}

/// Quote taken before the step.
pub enum Quote {
    None,
    Single(Result<QuoteResult, ErrKind>),
    Route(Result<TokenAmount, ErrKind>),
}

pub fn take_quote(w: &World, step: &Step) -> Quote {
    match &step.msg {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => Quote::Single(w.query(QueryMsg::Quote {
            pool_key: pool_key.clone(),
            x_to_y: *x_to_y,
            amount: *amount,
            by_amount_in: *by_amount_in,
            sqrt_price_limit: *sqrt_price_limit,
        })),
        ExecuteMsg::SwapRoute { amount_in, swaps, .. } => {
            let d: BTreeSet<PK> = swaps.iter().map(|h| pk(&h.pool_key)).collect();
            if d.len() == swaps.len() {
                Quote::Route(w.query(QueryMsg::QuoteRoute { amount_in: *amount_in, swaps: swaps.clone() }))
            } else {
                Quote::None
            }
        }
        _ => Quote::None,
    }
}

fn c12(c: &Cx, q: &Quote, ev: &mut Ev) -> V {
    let paid_ok = |r: &Res| match r {
        Err(e) => !(e.is_transfer() || e.variant() == "InvalidFunds"),
        _ => true,
    };
    match (q, &c.step.msg) {
        (Quote::Single(q), ExecuteMsg::Swap { pool_key, .. }) => {
            ev.seen(case(c), true, || brief(c));
            match (q, c.res) {
                (Ok(q), Ok(o)) => {
                    ensure!(q.amount_in.0 == attr(o, "amount_in")? && q.amount_out.0 == attr(o, "amount_out")?, "quoted ({}, {}), executed ({:?}, {:?})", q.amount_in.0, q.amount_out.0, o.attr("amount_in"), o.attr("amount_out"));
                    let got = net_observed(c.a, c.z);
                    let (ti, to) = match &c.step.msg {
                        ExecuteMsg::Swap { x_to_y: true, .. } => (&pool_key.token_x, &pool_key.token_y),
                        _ => (&pool_key.token_y, &pool_key.token_x),
                    };
                    let n = |t: &String| got.get(&(t.clone(), c.step.sender.clone())).copied().unwrap_or(0);
                    ensure!(n(ti) == -(q.amount_in.0 as i128) && n(to) == q.amount_out.0 as i128, "quoted ({}, {}), the caller's balances changed by ({}, {})", q.amount_in.0, q.amount_out.0, n(ti), n(to));
                    let p = &c.post.pools[&pk(pool_key)];
                    ensure!(p.pool.sqrt_price == q.target_sqrt_price, "quoted end price {}, executed {}", q.target_sqrt_price.get(), p.pool.sqrt_price.get());
                    for t in &q.ticks {
                        ensure!(p.ticks.get(&t.index) == Some(&norm(t.clone())), "quoted tick {:?}, after the swap it is {:?}", t, p.ticks.get(&t.index));
                    }
                    let pre = &c.pre.pools[&pk(pool_key)];
                    let changed: BTreeSet<i32> = p.ticks.iter().filter(|(i, t)| pre.ticks.get(i) != Some(t)).map(|x| *x.0).collect();
                    let quoted: BTreeSet<i32> = q.ticks.iter().map(|t| t.index).collect();
                    ensure!(changed.is_subset(&quoted), "ticks {:?} changed, quoted {:?}", changed, quoted);
                    if let Ok(e) = c.exp {
                        ensure!(quoted == e.swaps[0].m.crossed.iter().copied().collect(), "quoted crossed ticks {:?}, the swap crosses {:?}", quoted, e.swaps[0].m.crossed);
                    }
                }
                (Err(e), Ok(_)) => return Err(format!("the swap executes but its quote fails: {:?}", e)),
                (Ok(q), Err(e)) => ensure!(!paid_ok(c.res), "quoted ({}, {}) but the swap is refused: {:?}", q.amount_in.0, q.amount_out.0, e),
                (Err(_), Err(_)) => {}
            }
        }
        (Quote::Route(q), ExecuteMsg::SwapRoute { amount_in, swaps, .. }) => {
            ev.seen(case(c), true, || brief(c));
            ev.count(&format!("routes of {} hops", swaps.len()));
            match (q, c.res) {
                (Ok(q), Ok(o)) => ensure!(q.0 == attr(o, "amount_out")?, "route quoted {}, executed {:?}", q.0, o.attr("amount_out")),
                (Err(e), Ok(_)) => return Err(format!("the route executes but its quote fails: {:?}", e)),
                (Ok(q), Err(e)) => {
                    let min = e.variant() == "AmountUnderMinimumAmountOut";
                    ensure!(min || !paid_ok(c.res), "route quoted {} but refused: {:?}", q.0, e)
                }
                (Err(_), Err(_)) => {}
            }
            // the same swaps one after another, by someone with deep pockets
            if let Ok(o) = c.res {
                let mut f = c.a.clone();
                f.fail_token = None;
                f.advance(c.z.height - c.a.height, c.z.time_ns - c.a.time_ns);
                let mut a = amount_in.0;
                for h in swaps {
                    let ti = if h.x_to_y { &h.pool_key.token_x } else { &h.pool_key.token_y };
                    f.set_balance(ti, "orai1chain", START);
                    let funds = if is_native(ti) { vec![coin(ti, a)] } else { vec![] };
                    let limit = if h.x_to_y { refm::MIN_P } else { refm::MAX_P };
                    let m = ExecuteMsg::Swap { pool_key: h.pool_key.clone(), x_to_y: h.x_to_y, amount: TokenAmount(a), by_amount_in: true, sqrt_price_limit: sp(limit) };
                    a = match f.exec("orai1chain", &m, &funds) {
                        Ok(o) => attr(&o, "amount_out")?,
                        Err(e) => return Err(format!("the route executes but its swap of {} fails alone: {:?}", a, e)),
                    };
                }
                ensure!(a == attr(o, "amount_out")?, "route gives {:?}, its swaps one after another {}", o.attr("amount_out"), a);
                for h in swaps {
                    let k = &h.pool_key;
                    let g = |w: &World| w.query::<Pool>(QueryMsg::Pool { token_0: k.token_x.clone(), token_1: k.token_y.clone(), fee_tier: k.fee_tier });
                    ensure!(g(&f).ok() == g(c.z).ok(), "pool {:?} ends up different after the route and after its swaps one by one", pk(k));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

/// An attacker with no position acts alone on a copy of the state.
pub fn c04_attack(sc: &mut Scen, s: &Snap, ev: &mut Ev) -> V {
    let pools: Vec<PK> = s.pools.keys().cloned().collect();
    if pools.is_empty() {
        return Ok(());
    }
    let k = sc.rng.pick(&pools).clone();
    let eve = "orai1eve".to_string();
    if s.users.get(&eve).map_or(false, |v| !v.is_empty()) {
        return Ok(());
    }
    let saved = sc.w.clone();
    sc.w.fail_token = None;
    let mut cur = s.clone();
    let start = sc.w.clone();
    let p0 = s.pools[&k].pool.sqrt_price.get();
    let n = sc.rng.range(2, 14);
    let mut log: Vec<String> = vec![];
    let mut done = 0;
    let known = sc.known.ticks.clone();
    for j in 0..n {
        let mine = cur.users.get(&eve).map_or(0, |v| v.len()) as u64;
        let msg = match sc.rng.below(8) {
            0 | 1 | 2 => {
                let (lo, hi) = sc.gen_range(&cur, &k);
                sc.known.ticks.entry(k.clone()).or_default().extend([lo, hi]);
                let l = match sc.rng.below(5) {
                    0 => 1 + sc.rng.below(30) as u128,
                    1 => cur.pools[&k].pool.liquidity.0.max(1),
                    _ => sc.gen_liq(&k),
                };
                ExecuteMsg::CreatePosition { pool_key: key(&k), lower_tick: lo, upper_tick: hi, liquidity_delta: oraiswap_v3::liquidity::Liquidity(l), slippage_limit_lower: sp(0), slippage_limit_upper: sp(u128::MAX) }
            }
            3 if mine > 0 => ExecuteMsg::RemovePosition { index: sc.rng.below(mine) as u32 },
            4 if mine > 0 => ExecuteMsg::ClaimFee { index: sc.rng.below(mine) as u32 },
            _ => sc.gen_swap_on(&cur, &k),
        };
        let mut st = Step { sender: eve.clone(), msg, funds: vec![], blocks: 0, ns: 0, fail: None, hook: None };
        if let Ok(e) = spec(&cur, Block::of(&sc.w), &eve, &st.msg) {
            st.funds = native_due(&e).iter().map(|(d, a)| coin(d, *a)).collect();
        }
        let _ = j;
        if let Ok(_) = sc.w.exec(&eve, &st.msg, &st.funds) {
            log.push(format!("{:?}", st.msg));
            done += 1;
            match snap(&sc.w, &sc.known) {
                Ok(x) => cur = x,
                Err(_) => break,
            }
        }
    }
    let mut mine = cur.users.get(&eve).map_or(0, |v| v.len());
    let mut stuck = false;
    while mine > 0 {
        let i = sc.rng.below(mine as u64) as u32;
        if sc.w.exec(&eve, &ExecuteMsg::RemovePosition { index: i }, &[]).is_err() {
            stuck = true;
            break;
        }
        mine -= 1;
    }
    let d = |t: &String| sc.w.balance(t, &eve) as i128 - start.balance(t, &eve) as i128;
    let (dx, dy) = (d(&k.0), d(&k.1));
    sc.w = saved;
    sc.known.ticks = known;
    if stuck {
        return Ok(());
    }
    ev.seen((p0, dx, dy, &log), done >= 2, || format!("{} operations in {:?} end with ({}, {}): {:?}", done, k, dx, dy, log));
    gain(p0, dx, dy, &k, &log)
}

/// Rounding of a single unit can only be farmed where units are worth something: small positions by the dozen, in a
/// pool with hardly any fee whose price makes one token's unit worth many of the other's, entered on one side of the
/// price and left on the other.
pub fn c04_dust(sc: &mut Scen, s: &Snap, ev: &mut Ev) -> V {
    let eve = "orai1eve".to_string();
    if s.users.get(&eve).map_or(false, |v| !v.is_empty()) || sc.tokens.len() < 2 {
        return Ok(());
    }
    let saved = sc.w.clone();
    sc.w.fail_token = None;
    let r = dust(sc, s, ev, &eve);
    sc.w = saved;
    r
}

fn dust(sc: &mut Scen, s: &Snap, ev: &mut Ev, eve: &str) -> V {
    let admin = s.admin.clone();
    let spacing = *sc.rng.pick(&[1u16, 1, 2, 5, 10, 60, 100]);
    let fee = *sc.rng.pick(&[0u64, 0, 0, 1, 1_000_000]);
    let t = crate::scen::tier((fee, spacing));
    if !s.tiers.contains(&(fee, spacing)) && sc.w.exec(&admin, &ExecuteMsg::AddFeeTier { fee_tier: t }, &[]).is_err() {
        return Ok(());
    }
    let i = sc.rng.below(sc.tokens.len() as u64) as usize;
    let j = (i + 1 + sc.rng.below(sc.tokens.len() as u64 - 1) as usize) % sc.tokens.len();
    let sp_ = spacing as i32;
    let far = sc.rng.range(20, 150) as i32 * 1000;
    let tick = match sc.rng.below(5) { 0 | 1 => -far, 2 | 3 => far, _ => far / 1000 } / sp_ * sp_;
    let p0 = refm::price(tick);
    let (x, y) = if sc.tokens[i] < sc.tokens[j] { (i, j) } else { (j, i) };
    let pk_ = key(&(sc.tokens[x].clone(), sc.tokens[y].clone(), fee, spacing));
    if s.pools.contains_key(&pk(&pk_)) {
        return Ok(());
    }
    if sc.w.exec("orai1bob", &ExecuteMsg::CreatePool { token_0: pk_.token_x.clone(), token_1: pk_.token_y.clone(), fee_tier: t, init_sqrt_price: sp(p0), init_tick: tick }, &[]).is_err() {
        return Ok(());
    }
    let purse = |w: &World, who: &str| -> Vec<Coin> {
        let mut v: Vec<Coin> = [&pk_.token_x, &pk_.token_y].iter().filter(|d| !is_addr(d)).map(|d| coin(d, w.balance(d, who))).filter(|c| !c.amount.is_zero()).collect();
        v.sort_by(|a, z| a.denom.cmp(&z.denom));
        v
    };
    let open = |w: &mut World, who: &str, lo: i32, hi: i32, l: u128| {
        let m = ExecuteMsg::CreatePosition { pool_key: pk_.clone(), lower_tick: lo, upper_tick: hi, liquidity_delta: oraiswap_v3::liquidity::Liquidity(l), slippage_limit_lower: sp(0), slippage_limit_upper: sp(u128::MAX) };
        let f = purse(w, who);
        w.exec(who, &m, &f)
    };
    // the amount of which the unit is worth something, for a range of n ticks: 2^bits units of it
    let wide = sc.rng.range(20, 3000) as i32 * sp_;
    let base = 1u128 << sc.rng.range(20, 60);
    let bits = sc.rng.range(0, 12) as u32;
    if open(&mut sc.w, "orai1bob", tick - wide, tick + wide, base).is_err() {
        return Ok(());
    }
    let start = sc.w.clone();
    let up = sc.rng.chance(1, 2);
    let n = sc.rng.range(5, 40);
    let mut log = vec![format!("fee {} spacing {} tick {} bystander {} over {}", fee, spacing, tick, base, wide)];
    let mut edge = tick;
    let mut done = 0;
    for _ in 0..n {
        let a = 1 + sc.rng.below(3) as i32;
        let len = 1 + sc.rng.below(12) as i32;
        let (lo, hi) = if up { (tick + a * sp_, tick + (a + len) * sp_) } else { (tick - (a + len) * sp_, tick - a * sp_) };
        // liquidity worth a few units of the token it will turn into
        let (pl, ph) = (refm::price(lo), refm::price(hi));
        let dp = ph - pl;
        let unit = if up { p10(30) / b(dp) } else { p10(6) * (b(pl) * b(ph) / p10(24)) / b(dp) };
        let l = unit * b((1u128 << bits) + sc.rng.below(1 << 20) as u128) / b(1 + sc.rng.below(1 << bits.min(20)) as u128);
        if l > b(u128::MAX >> 8) {
            continue;
        }
        let l = l.as_u128().max(1);
        if open(&mut sc.w, eve, lo, hi, l).is_ok() {
            log.push(format!("open {}..{} {}", lo, hi, l));
            edge = if up { edge.max(hi) } else { edge.min(lo) };
            done += 1;
        }
    }
    if done == 0 {
        return Ok(());
    }
    // the greatest amount that the pool takes before the price reaches the target
    let go = |w: &mut World, x_to_y: bool, target: u128| -> Option<u128> {
        let quote = |a: u128| w.query::<oraiswap_v3::interface::QuoteResult>(QueryMsg::Quote { pool_key: pk_.clone(), x_to_y, amount: oraiswap_v3::token_amount::TokenAmount(a), by_amount_in: true, sqrt_price_limit: sp(target) });
        let (mut lo, mut hi) = (0u128, 1u128 << 100);
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            match quote(mid) {
                Ok(_) => lo = mid,
                // too little to give anything, or too much
                Err(_) if quote(mid * 2).is_ok() => lo = mid,
                Err(_) => hi = mid,
            }
        }
        let m = ExecuteMsg::Swap { pool_key: pk_.clone(), x_to_y, amount: oraiswap_v3::token_amount::TokenAmount(lo), by_amount_in: true, sqrt_price_limit: sp(target) };
        let f = purse(w, eve);
        w.exec(eve, &m, &f).ok().map(|_| lo)
    };
    let through = edge + if up { sp_ } else { -sp_ };
    let a = go(&mut sc.w, !up, refm::price(through));
    log.push(format!("through {}: {:?}", through, a));
    if sc.rng.chance(1, 4) {
        let _ = sc.w.exec(eve, &ExecuteMsg::ClaimFee { index: 0 }, &[]);
    }
    for _ in 0..done {
        if sc.w.exec(eve, &ExecuteMsg::RemovePosition { index: 0 }, &[]).is_err() {
            return Ok(());
        }
    }
    let z = go(&mut sc.w, up, p0);
    log.push(format!("back: {:?}", z));
    let d = |t: &String| sc.w.balance(t, eve) as i128 - start.balance(t, eve) as i128;
    let (dx, dy) = (d(&pk_.token_x), d(&pk_.token_y));
    ev.count("dust");
    if a.is_some() {
        ev.count("dust through the ranges");
    }
    ev.seen((p0, dx, dy, &log), a.is_some(), || format!("dust farming ends with ({}, {}): {:?}", dx, dy, log));
    gain(p0, dx, dy, &pk(&pk_), &log)
}

fn gain(p0: u128, dx: i128, dy: i128, k: &PK, log: &[String]) -> V {
    ensure!(!(dx >= 0 && dy >= 0 && (dx > 0 || dy > 0)), "gained ({}, {}) in pool {:?} by acting alone: {:?}", dx, dy, k, log);
    // value at the starting price: dx * p0^2 + dy <= tolerance
    let p2 = b(p0) * b(p0); // scale 48
    let e48 = p10(48);
    let (mut plus, mut minus) = (B::zero(), B::zero());
    if dx > 0 { plus = plus + b(dx as u128) * p2 } else { minus = minus + b((-dx) as u128) * p2 }
    if dy > 0 { plus = plus + b(dy as u128) * e48 } else { minus = minus + b((-dy) as u128) * e48 }
    let tol = (p2 + e48) / b(1000);
    ensure!(plus <= minus + tol, "valued at the starting price {} a sequence of own operations gains: ({}, {}) in {:?}: {:?}", p0, dx, dy, k, log);
    Ok(())
}

fn paged<T: Clone, F: FnMut(Option<&T>, u32) -> Result<Vec<T>, String>>(mut f: F, page: u32) -> Result<Vec<T>, String> {
    let mut out: Vec<T> = vec![];
    loop {
        let v = f(out.last(), page)?;
        let n = v.len();
        if n > page as usize {
            return Err(format!("page of {} entries for a limit of {}", n, page));
        }
        out.extend(v);
        if n < page as usize || out.len() > 100_000 {
            return Ok(out);
        }
    }
}

pub fn c15(w: &World, s: &Snap, rng: &mut Rng, ev: &mut Ev) -> V {
    let q = |e: ErrKind| format!("listing query failed: {:?}", e);
    let page = *rng.pick(&[1u32, 2, 3, 5, 7, 50, 99, 100]);
    // pools
    let pools: Vec<PoolWithPoolKey> = paged(
        |last: Option<&PoolWithPoolKey>, n| w.query(QueryMsg::Pools { limit: Some(n), start_after: last.map(|x| x.pool_key.clone()) }).map_err(q),
        page,
    )?;
    let got: Vec<PK> = pools.iter().map(|p| pk(&p.pool_key)).collect();
    let set: BTreeSet<PK> = got.iter().cloned().collect();
    ensure!(set.len() == got.len() && set.iter().eq(s.pools.keys()), "paging pools by {} gives {:?}, there are {:?}", page, got, s.pools.keys());
    for p in &pools {
        ensure!(p.pool == s.pools[&pk(&p.pool_key)].pool, "pool listing shows stale contents");
        let g: Pool = w.query(QueryMsg::Pool { token_0: p.pool_key.token_y.clone(), token_1: p.pool_key.token_x.clone(), fee_tier: p.pool_key.fee_tier }).map_err(q)?;
        ensure!(g == p.pool, "pool listing and pool query disagree");
    }
    let all: Vec<PoolWithPoolKey> = w.query(QueryMsg::Pools { limit: None, start_after: None }).map_err(q)?;
    ensure!(all.len() == s.pools.len().min(100) && all[..] == pools[..all.len()], "unlimited pool listing has {} of {} pools", all.len(), s.pools.len());
    // pools of a pair
    let mut pairs: BTreeSet<(String, String)> = s.pools.keys().map(|k| (k.0.clone(), k.1.clone())).collect();
    pairs.insert(("nope".into(), "orai1none".into()));
    for (a, z) in pairs {
        let (t0, t1) = if rng.chance(1, 2) { (a.clone(), z.clone()) } else { (z.clone(), a.clone()) };
        let v: Vec<PoolWithPoolKey> = w.query(QueryMsg::PoolsForPair { token_0: t0, token_1: t1 }).map_err(q)?;
        let got: BTreeSet<PK> = v.iter().map(|p| pk(&p.pool_key)).collect();
        let want: BTreeSet<PK> = s.pools.keys().filter(|k| k.0 == a && k.1 == z && s.tiers.contains(&(k.2, k.3))).cloned().collect();
        ensure!(got == want && v.len() == want.len(), "pools of ({}, {}) are {:?}, should be {:?}", a, z, got, want);
        for p in &v {
            ensure!(p.pool == s.pools[&pk(&p.pool_key)].pool, "pair listing shows stale contents");
        }
    }
    let ft: Vec<FeeTier> = w.query(QueryMsg::FeeTiers {}).map_err(q)?;
    for t in &ft {
        ensure!(w.query::<bool>(QueryMsg::FeeTierExist { fee_tier: *t }).map_err(q)?, "listed fee tier {:?} reported as missing", t);
    }
    // positions and tokens
    let mut ids: Vec<Vec<u8>> = vec![];
    for (u, v) in &s.users {
        let n = v.len() as u32;
        let c: u32 = w.query(QueryMsg::UserPositionAmount { owner: addr(u) }).map_err(q)?;
        ensure!(c == n, "{} has {} positions, count says {}", u, n, c);
        ids.extend((0..n).map(|i| token_id(u, i).to_vec()));
        for _ in 0..3 {
            let off = match rng.below(5) {
                0 => None,
                1 => Some(n),
                2 => Some(n + rng.below(5) as u32),
                _ => Some(rng.below(n as u64 + 1) as u32),
            };
            let lim = match rng.below(7) {
                0 => None,
                1 => Some(0),
                2 => Some(u32::MAX),
                3 => Some(u32::MAX - rng.below(3) as u32),
                4 => Some(n),
                _ => Some(rng.below(n as u64 + 3) as u32),
            };
            let lo = off.unwrap_or(0).min(n) as usize;
            let hi = (lo as u64 + lim.unwrap_or(100) as u64).min(n as u64) as usize;
            let g: Vec<Position> = w.query(QueryMsg::Positions { owner_id: addr(u), limit: lim, offset: off }).map_err(|e| format!("positions of {} (limit {:?} offset {:?}): {:?}", u, lim, off, e))?;
            let t: TokensResponse = w.query(QueryMsg::Tokens { owner: addr(u), start_after: off, limit: lim }).map_err(|e| format!("tokens of {} (limit {:?} from {:?}): {:?}", u, lim, off, e))?;
            let capped = lim.map_or(false, |l| l > 100) && (hi - lo) > 100;
            if capped {
                ensure!(g.len() >= 100 && g[..] == v[lo..lo + g.len().min(hi - lo)], "positions of {} with limit {:?} offset {:?} are wrong", u, lim, off);
            } else {
                ensure!(g[..] == v[lo..hi], "positions of {} with limit {:?} offset {:?}: {} entries, should be {}", u, lim, off, g.len(), hi - lo);
                let want: Vec<Binary> = (lo..hi).map(|i| token_id(u, i as u32)).collect();
                ensure!(t.tokens == want, "tokens of {} with limit {:?} from {:?} are {:?}", u, lim, off, t.tokens);
            }
        }
        // paging positions by offset
        let mut seen = vec![];
        loop {
            let g: Vec<Position> = w.query(QueryMsg::Positions { owner_id: addr(u), limit: Some(page), offset: Some(seen.len() as u32) }).map_err(q)?;
            let m = g.len();
            seen.extend(g);
            if m < page as usize || seen.len() > v.len() {
                break;
            }
        }
        ensure!(seen == *v, "paging positions of {} by {} gives {} of {}", u, page, seen.len(), v.len());
        // position ticks
        let off = rng.below(n as u64 + 1) as u32;
        let pt: Vec<PositionTick> = w.query(QueryMsg::PositionTicks { owner: addr(u), offset: off }).map_err(q)?;
        let mut want = vec![];
        for p in &v[off as usize..] {
            for i in [p.lower_tick_index, p.upper_tick_index] {
                if let Some(t) = s.pools.get(&pk(&p.pool_key)).and_then(|x| x.ticks.get(&i)) {
                    want.push(PositionTick { index: i, fee_growth_outside_x: t.fee_growth_outside_x, fee_growth_outside_y: t.fee_growth_outside_y, seconds_outside: t.seconds_outside });
                }
            }
        }
        if want.len() <= 372 {
            ensure!(pt == want, "position ticks of {} from {}: {} entries, should be {}", u, off, pt.len(), want.len());
        } else {
            ensure!(pt.len() >= 370 && pt[..] == want[..pt.len()], "position ticks of {} from {} are wrong", u, off);
        }
        // operators
        let live: Vec<Approval> = s.operators.get(u).map(|v| v.iter().filter(|a| !Block::of(w).expired(&a.expires)).cloned().collect()).unwrap_or_default();
        for inc in [Some(true), None] {
            let want: &Vec<Approval> = if inc.is_some() { &s.operators[u] } else { &live };
            let got: Vec<Approval> = paged(
                |last: Option<&Approval>, n| {
                    w.query::<ApprovedForAllResponse>(QueryMsg::ApprovedForAll { owner: addr(u), include_expired: inc, start_after: last.map(|x| x.spender.clone()), limit: Some(n) })
                        .map(|r| r.operators)
                        .map_err(q)
                },
                page,
            )?;
            ensure!(got == *want, "paging operators of {} by {} (expired included: {:?}) gives {} of {}", u, page, inc, got.len(), want.len());
        }
        let r: ApprovedForAllResponse = w.query(QueryMsg::ApprovedForAll { owner: addr(u), include_expired: Some(true), start_after: None, limit: None }).map_err(q)?;
        ensure!(r.operators.len() == s.operators[u].len().min(100), "unlimited operator listing has {} of {}", r.operators.len(), s.operators[u].len());
    }
    ids.sort();
    let got: Vec<Binary> = paged(|last: Option<&Binary>, n| w.query::<TokensResponse>(QueryMsg::AllTokens { start_after: last.cloned(), limit: Some(n) }).map(|r| r.tokens).map_err(q), page)?;
    ensure!(got.iter().map(|b| b.to_vec()).eq(ids.iter().cloned()), "paging all positions by {} gives {} of {}", page, got.len(), ids.len());
    let t: TokensResponse = w.query(QueryMsg::AllTokens { start_after: None, limit: None }).map_err(q)?;
    ensure!(t.tokens.len() == ids.len().min(100), "unlimited listing of all positions has {} of {}", t.tokens.len(), ids.len());
    // ticks
    for (k, ps) in &s.pools {
        let sp_ = k.3 as i32;
        let (mn, mx) = (refm::min_tick(k.3), refm::max_tick(k.3));
        let m = s.model(k).unwrap();
        let init: BTreeSet<i32> = m.ticks().keys().copied().collect();
        let v: Vec<i32> = init.iter().copied().collect();
        let bits = all_bits(w, k).map_err(q)?;
        ensure!(bits == init, "tick map of {:?} flags {:?}, positions use {:?}", k, bits, init);
        let pos = |t: i32| (t / sp_ + refm::MAX_TICK / sp_) / 64;
        for _ in 0..6 {
            // ranges around ticks, words and ends
            let mut pick = |r: &mut Rng| -> i32 {
                let t = match r.below(6) {
                    0 => mn,
                    1 => mx,
                    2 if !v.is_empty() => *r.pick(&v),
                    3 if !v.is_empty() => *r.pick(&v) + sp_ * r.range(-1, 1) as i32,
                    4 if !v.is_empty() => {
                        let c = pos(*r.pick(&v)) + r.range(0, 1) as i32;
                        (c * 64 - refm::MAX_TICK / sp_) * sp_ - sp_ * r.range(0, 1) as i32
                    }
                    _ => refm::floor_align(r.range(-221_818, 221_818) as i32, sp_),
                };
                t.clamp(mn, mx)
            };
            let (mut a, mut z) = (pick(rng), pick(rng));
            if a > z {
                std::mem::swap(&mut a, &mut z);
            }
            if rng.chance(1, 6) {
                // exactly one word
                let c = pos(a);
                a = ((c * 64 - refm::MAX_TICK / sp_) * sp_).clamp(mn, mx);
                z = (a + 63 * sp_).clamp(mn, mx);
            }
            let n: u32 = w.query(QueryMsg::LiquidityTicksAmount { pool_key: key(k), lower_tick: a, upper_tick: z }).map_err(|e| format!("count of ticks {}..{} of {:?}: {:?}", a, z, k, e))?;
            let want = init.range(a..=z).count() as u32;
            ensure!(n == want, "count of ticks {}..{} of {:?} is {}, should be {}", a, z, k, n, want);
            if k.3 >= 10 || rng.chance(1, 4) {
                let xy = rng.chance(1, 2);
                let g: Vec<(u16, u64)> = w.query(QueryMsg::TickMap { pool_key: key(k), lower_tick_index: a, upper_tick_index: z, x_to_y: xy }).map_err(q)?;
                let mut want: BTreeMap<u16, u64> = BTreeMap::new();
                for t in &init {
                    let i = t / sp_ + refm::MAX_TICK / sp_;
                    if i / 64 >= pos(a) && i / 64 <= pos(z) {
                        *want.entry((i / 64) as u16).or_insert(0) |= 1u64 << (i % 64);
                    }
                }
                let gm: Vec<(u16, u64)> = g.iter().copied().filter(|x| x.1 != 0).collect();
                let mut wm: Vec<(u16, u64)> = want.into_iter().collect();
                if xy {
                    wm.reverse();
                }
                ensure!(gm == wm, "tick map of {:?} for {}..{} (descending: {}) is {:?}, should be {:?}", k, a, z, xy, gm, wm);
                let cs: Vec<u16> = g.iter().map(|x| x.0).collect();
                ensure!(cs.windows(2).all(|w| if xy { w[0] > w[1] } else { w[0] < w[1] }), "tick map words out of order: {:?}", cs);
            }
        }
        let mut idx: Vec<i32> = v.clone();
        if rng.chance(1, 2) {
            idx.reverse();
        }
        idx.truncate(780);
        let lt: Vec<oraiswap_v3::LiquidityTick> = w.query(QueryMsg::LiquidityTicks { pool_key: key(k), tick_indexes: idx.clone() }).map_err(q)?;
        ensure!(lt.len() == idx.len(), "liquidity ticks: {} of {}", lt.len(), idx.len());
        for (i, t) in idx.iter().zip(&lt) {
            let r = ps.ticks.get(i).ok_or("missing tick")?;
            ensure!(t.index == *i && t.liquidity_change == r.liquidity_change && (t.sign == r.sign || r.liquidity_change.0 == 0), "liquidity tick {} is {:?}", i, t);
        }
        for t in &v {
            for d in [-1, 0, 1] {
                let x = t + d * sp_;
                if x >= mn && x <= mx {
                    let g: bool = w.query(QueryMsg::IsTickInitialized { key: key(k), index: x }).map_err(q)?;
                    ensure!(g == init.contains(&x), "tick {} of {:?} reported initialised: {}", x, k, g);
                }
            }
        }
    }
    ev.seen((state_hash(s), page), s.npos() > 0 || s.pools.len() > 1, || format!("{} pools, {} positions, {} ticks listed with page size {}", s.pools.len(), s.npos(), s.pools.values().map(|p| p.ticks.len()).sum::<usize>(), page));
    Ok(())
}

/// The number a decimal text stands for, in units of 10^-scale.
fn decimal_text(t: &str, scale: usize) -> Option<B> {
    let (i, f) = t.split_once('.').unwrap_or((t, ""));
    let mut f = f.to_string();
    while f.len() > scale {
        if f.pop() != Some('0') {
            return None;
        }
    }
    while f.len() < scale {
        f.push('0');
    }
    let all = format!("{}{}", i, f);
    if i.is_empty() || !all.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    B::from_dec_str(&all).ok()
}

/// C26: what the event of a successful operation says is what happened.
fn c26(c: &Cx, ev: &mut Ev) -> V {
    use ExecuteMsg::*;
    let k = kind_of(&c.step.msg);
    let Ok(o) = c.res else {
        return Ok(());
    };
    let is = |name: &str, want: &str| -> V {
        ensure!(o.attr(name) == Some(want), "the event of {} says {}={:?}, it is {}", k, name, o.attr(name), want);
        ensure!(o.attrs.iter().filter(|a| a.0 == name).count() == 1, "the event of {} names {} more than once: {:?}", k, name, o.attrs);
        Ok(())
    };
    let num = |name: &str, want: u128, scale: usize| -> V {
        let t = o.attr(name).unwrap_or("");
        ensure!(decimal_text(t, scale) == Some(b(want)), "the event of {} says {}={:?}, it is {} units of 10^-{}", k, name, t, want, scale);
        Ok(())
    };
    let me = c.step.sender.as_str();
    let action = match &c.step.msg {
        CreatePosition { .. } | Mint { .. } => "create_position",
        RemovePosition { .. } | Burn { .. } => "remove_position",
        TransferPosition { .. } => "transfer_position",
        ClaimFee { .. } => "claim_fee",
        _ => k,
    };
    is("action", action)?;
    match &c.step.msg {
        CreatePosition { pool_key, .. } | Mint { extension: oraiswap_v3::msg::NftExtensionMsg { pool_key, .. } } => {
            let p = c.post.users.get(me).and_then(|v| v.last()).ok_or("the opened position is not there")?;
            is("address", me)?;
            num("liquidity", p.liquidity.get(), 6)?;
            is("lower_tick", &p.lower_tick_index.to_string())?;
            is("upper_tick", &p.upper_tick_index.to_string())?;
            num("current_sqrt_price", c.post.pools[&pk(pool_key)].pool.sqrt_price.get(), 24)?;
        }
        RemovePosition { .. } | Burn { .. } => {
            let (owner, i) = match &c.step.msg {
                RemovePosition { index } => (me.to_string(), *index as usize),
                Burn { token_id } => match split_id(token_id) {
                    Some(x) => x,
                    None => return Ok(()),
                },
                _ => unreachable!(),
            };
            let p = c.pre.users.get(&owner).and_then(|v| v.get(i)).ok_or("the closed position was not there")?;
            is("address", &owner)?;
            num("liquidity", p.liquidity.get(), 6)?;
            is("lower_tick", &p.lower_tick_index.to_string())?;
            is("upper_tick", &p.upper_tick_index.to_string())?;
            num("current_sqrt_price", c.post.pools[&pk(&p.pool_key)].pool.sqrt_price.get(), 24)?;
        }
        Swap { pool_key, x_to_y, .. } => {
            let (i, q) = if *x_to_y { (&pool_key.token_x, &pool_key.token_y) } else { (&pool_key.token_y, &pool_key.token_x) };
            let (bi, bq) = (c.z.balance(i, CONTRACT).wrapping_sub(c.a.balance(i, CONTRACT)), c.a.balance(q, CONTRACT).wrapping_sub(c.z.balance(q, CONTRACT)));
            num("amount_in", bi, 0)?;
            num("amount_out", bq, 0)?;
        }
        SwapRoute { swaps, .. } => {
            if let (Ok(e), Some(h)) = (c.exp, swaps.last()) {
                // the reference's figure counts only where its pools are the observed ones
                let k = pk(&h.pool_key);
                if e.post.pools.get(&k).map(|p| &p.pool) == c.post.pools.get(&k).map(|p| &p.pool) {
                    for (n, v) in &e.attrs {
                        is(n, v)?;
                    }
                }
            }
        }
        ClaimFee { index } => {
            let p = c.pre.users.get(me).and_then(|v| v.get(*index as usize)).ok_or("the position was not there")?;
            for (n, t) in [("amount_x", &p.pool_key.token_x), ("amount_y", &p.pool_key.token_y)] {
                num(n, c.a.balance(t, CONTRACT).wrapping_sub(c.z.balance(t, CONTRACT)), 0)?;
            }
        }
        ChangeAdmin { new_admin } => is("new_admin", new_admin.as_str())?,
        TransferNft { recipient, .. } => {
            is("sender", me)?;
            is("recipient", recipient.as_str())?;
        }
        SendNft { contract, msg, .. } => {
            is("sender", me)?;
            is("recipient", contract.as_str())?;
            // what the receiving contract is told
            let told: Vec<serde_json::Value> = o.sends.iter().filter(|(a, _)| a == contract.as_str()).filter_map(|(_, j)| serde_json::from_str(j).ok()).collect();
            ensure!(told.len() == 1 && o.sends.len() == 1, "sending a position to {} sends {:?}", contract, o.sends);
            let t = &told[0]["receive_nft"];
            ensure!(t["sender"] == me, "the receiving contract is told of sender {}, it was {}", t["sender"], me);
            let want = msg.as_ref().map_or(serde_json::Value::Null, |m| m.to_base64().into());
            ensure!(t["msg"] == want, "the receiving contract gets the message {}, attached was {}", t["msg"], want);
            if let Some(v) = c.post.users.get(contract.as_str()).filter(|v| !v.is_empty()) {
                let id = token_id(contract.as_str(), v.len() as u32 - 1).to_base64();
                ensure!(t["token_id"] == id.as_str(), "the receiving contract is told of identifier {}, the position is {} there", t["token_id"], id);
            }
        }
        Approve { spender, .. } | Revoke { spender, .. } => {
            is("sender", me)?;
            is("spender", spender.as_str())?;
        }
        ApproveAll { operator, .. } | RevokeAll { operator } => {
            is("sender", me)?;
            is("operator", operator.as_str())?;
        }
        _ => {}
    }
    ev.count(&format!("events of {}", action));
    ev.seen(case(c), true, || format!("{} -> {:?}", brief(c), o.attrs));
    Ok(())
}

fn split_id(id: &[u8]) -> Option<(String, usize)> {
    if id.len() < 5 {
        return None;
    }
    let (o, i) = id.split_at(id.len() - 4);
    Some((String::from_utf8(o.to_vec()).ok()?, u32::from_be_bytes(i.try_into().ok()?) as usize))
}

/// C27, the start: a fresh contract.
fn c27_fresh(seed: u64, ev: &mut Ev) -> V {
    let mut r = Rng::new(seed ^ 0x27);
    let who = *r.pick(&["orai1admin", "orai1alice", "orai1zed", "orai1bob1"]);
    let pf = match r.below(4) {
        0 => 0,
        1 => refm::ONE_PCT,
        _ => r.below(refm::ONE_PCT),
    };
    let w = World::new(who, pf);
    let known = Known { users: ["orai1admin", "orai1alice", "orai1zed", "orai1bob1"].iter().map(|s| s.to_string()).collect(), ticks: Default::default() };
    let s = snap(&w, &known)?;
    ensure!(s.admin == who, "admin of a contract set up by {} is {}", who, s.admin);
    ensure!(s.protocol_fee == pf, "protocol fee set up as {} is {}", pf, s.protocol_fee);
    ensure!(s.tiers.is_empty() && s.pools.is_empty() && s.npos() == 0 && s.operators.values().all(|v| v.is_empty()), "a new contract is not empty: {:?}", s);
    ev.count("fresh contracts observed");
    Ok(())
}

/// C27: after a migration the contract is as before, for everything it is asked to do next.
fn c27(w: &World, known: &Known, post: &Snap, sc: &mut Scen, ev: &mut Ev) -> V {
    let mut m = w.clone();
    let msgs = m.migrate().map_err(|e| format!("migration failed: {:?}", e))?;
    ensure!(msgs == 0, "a migration sends {} messages", msgs);
    ensure!(m.bal == w.bal, "a migration moved tokens");
    let s = snap(&m, known).map_err(|e| format!("after a migration {}", e))?;
    ensure!(s == *post, "a migration changed what the contract shows: {}", diff(post, &s));
    let n = sc.rng.range(1, 4);
    let mut plain = w.clone();
    let mut cur = post.clone();
    for _ in 0..n {
        let st = sc.next(&cur);
        for x in [&mut plain, &mut m] {
            x.advance(st.blocks, st.ns);
        }
        let (a, z) = (plain.exec(&st.sender, &st.msg, &st.funds), m.exec(&st.sender, &st.msg, &st.funds));
        let show = |r: &Res| match r {
            Ok(o) => format!("ok {:?} {:?}", o.attrs, o.flows),
            Err(e) => format!("{:?}", e),
        };
        ensure!(show(&a) == show(&z), "after a migration {:?} gives {}, without it {}", st.msg, show(&z), show(&a));
        let (sa, sz) = (snap(&plain, known), snap(&m, known));
        ensure!(sa == sz, "after a migration {:?} leads to another state", st.msg);
        match sa {
            Ok(x) => cur = x,
            Err(_) => break,
        }
        ev.count("operations compared with and without a migration");
    }
    ev.seen((state_hash(post), n), post.npos() > 0 || !post.tiers.is_empty(), || format!("migration with {} pools, {} positions, {} tiers, then {} operations", post.pools.len(), post.npos(), post.tiers.len(), n));
    Ok(())
}

fn diff(a: &Snap, z: &Snap) -> String {
    if a.admin != z.admin || a.protocol_fee != z.protocol_fee || a.tiers != z.tiers {
        return format!("configuration {:?} -> {:?}", (&a.admin, a.protocol_fee, &a.tiers), (&z.admin, z.protocol_fee, &z.tiers));
    }
    for (k, p) in &a.pools {
        if z.pools.get(k) != Some(p) {
            return format!("pool {:?}", k);
        }
    }
    for (u, v) in &a.users {
        if z.users.get(u) != Some(v) {
            return format!("positions of {}", u);
        }
    }
    "pools, positions or operators".into()
}

pub struct Outc {
    pub violation: Option<(usize, String)>,
    pub trace: Vec<String>,
    pub steps: u64,
}

pub fn profile_for(prop: &str, seed: u64) -> Profile {
    match prop {
        "C10" | "C11" => {
            if seed % 4 == 0 { Profile::Mixed } else { Profile::Nft }
        }
        "C09" | "C14" => {
            if seed % 3 == 0 { Profile::Mixed } else { Profile::Admin }
        }
        "C15" => match seed % 6 {
            0 => Profile::Bulk,
            1 => Profile::Admin,
            _ => Profile::Mixed,
        },
        "C26" | "C27" => match seed % 4 {
            0 => Profile::Nft,
            1 => Profile::Admin,
            _ => Profile::Mixed,
        },
        "C02" | "C18" | "C01" | "C25" | "C08" => {
            if seed % 2 == 0 { Profile::Mixed } else { Profile::Amm }
        }
        _ => Profile::Amm,
    }
}

/// One scenario for one property.
pub fn run(prop: &str, seed: u64, steps: usize, ev: &mut Ev) -> Outc {
    let profile = profile_for(prop, seed);
    let mut sc = Scen::new(seed, profile);
    sc.hostile = matches!(prop, "C01" | "C02" | "C18");
    sc.extra_coins = prop == "C17";
    let mut rng = Rng::new(seed ^ 0x5151);
    let mut out = Outc { violation: None, trace: vec![], steps: 0 };
    #[cfg(feature = "steps")]
    if matches!(prop, "C03" | "C16" | "C23") {
        if let Err(m) = crate::steps::steps(prop, seed, 100, ev) {
            out.violation = Some((0, m));
            return out;
        }
    }
    if prop == "C27" {
        if let Err(m) = c27_fresh(seed, ev) {
            out.violation = Some((0, m));
            return out;
        }
    }
    let mut sh = Shadow { valid: true, last_ms: Block::of(&sc.w).millis(), ..Default::default() };
    let mut pre = match snap(&sc.w, &sc.known) {
        Ok(s) => s,
        Err(e) => {
            if prop == "C15" {
                out.violation = Some((0, e));
            }
            return out;
        }
    };
    let steps = if profile == Profile::Bulk { steps * 5 } else { steps };
    // property-specific preparation
    if prop == "C15" && profile == Profile::Bulk {
        bulk_setup(&mut sc);
        pre = match snap(&sc.w, &sc.known) {
            Ok(s) => s,
            Err(e) => {
                out.violation = Some((0, e));
                return out;
            }
        };
    }
    // an owner with so many positions that their indices need more than one byte
    let crowd = matches!(prop, "C07" | "C10" | "C11" | "C16" | "C18") && seed % 150 == 77;
    if crowd {
        crowd_setup(&mut sc, &pre);
        pre = match snap(&sc.w, &sc.known) {
            Ok(s) => s,
            Err(e) => {
                if prop == "C10" {
                    out.violation = Some((0, e));
                }
                return out;
            }
        };
        ev.count("owners with more than 256 positions");
    }
    // positions opened during the preparation have earned nothing yet
    for (u, v) in &pre.users {
        sh.acc.insert(u.clone(), vec![Acc::default(); v.len()]);
    }
    for n in 0..steps {
        let mut step = sc.next(&pre);
        if crowd && n % 3 == 0 {
            let len = pre.users.get("orai1bob").map(|v| v.len()).unwrap_or(0) as i64;
            let index = sc.rng.range((len - 20).max(0), (len - 1).max(0)) as u32;
            let msg = match sc.rng.below(4) {
                0 => ExecuteMsg::RemovePosition { index },
                1 => ExecuteMsg::TransferPosition { index, receiver: "orai1carol".into() },
                _ => ExecuteMsg::ClaimFee { index },
            };
            step = Step { sender: "orai1bob".into(), msg, funds: vec![], fail: None, hook: None, ..step };
        }
        let a = sc.w.clone();
        sc.w.advance(step.blocks, step.ns);
        // ticks newly mentioned must be in the state before as well
        let pre_full = match snap_if_needed(&a, &sc, &pre) {
            Ok(s) => s,
            Err(_) => pre.clone(),
        };
        let blk = Block::of(&sc.w);
        sc.w.fail_token = step.fail.clone();
        sc.w.hook = step.hook.clone().map(|(token, sender, msg, funds, propagate)| Hook { token, sender, msg, funds, propagate });
        let exp = spec(&pre_full, blk, &step.sender, &step.msg);
        let pay = match &exp {
            Ok(e) => payable(e, &a, &step.sender, &step.funds, step.fail.as_deref()),
            Err(_) => Pay::Unknown,
        };
        let quote = if prop == "C12" { take_quote(&sc.w, &step) } else { Quote::None };
        if prop == "C12" && sc.w.store.data != a.store.data {
            out.violation = Some((n, "a quote changed stored data".into()));
        }
        let res = sc.w.exec(&step.sender, &step.msg, &step.funds);
        sc.w.hook = None;
        sc.w.fail_token = None;
        out.steps += 1;
        let post = match snap(&sc.w, &sc.known) {
            Ok(s) => s,
            Err(e) => {
                out.trace.push(format!("{:?} {:?}", step, res.as_ref().map(|o| &o.attrs)));
                if prop == "C15" || prop == "C10" {
                    out.violation = Some((n, e));
                }
                return out;
            }
        };
        let c = Cx { pre: &pre_full, post: &post, a: &a, z: &sc.w, step: &step, blk, exp: &exp, pay, res: &res };
        let who = if step.hook.is_some() { format!(" [hook {:?}]", step.hook) } else if step.fail.is_some() { format!(" [failing {:?}]", step.fail) } else { String::new() };
        out.trace.push(format!("h{} t{} {}{}", blk.height, blk.nanos, brief(&c), who));
        let nested = hostile(&c);
        let v: V = if out.violation.is_some() {
            Ok(())
        } else if nested && prop != "C01" {
            Ok(())
        } else {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop {
                "C01" => c01(&c, ev),
                "C02" => c02(&c, ev),
                "C03" => c03(&c, ev),
                "C05" => {
                    ev.seen(state_hash(&post), post.npos() > 0, || brief(&c));
                    if res.is_ok() {
                        ev.count(kind_of(&step.msg));
                    }
                    c05_state(&post)
                }
                "C06" => c06(&c, ev),
                "C07" => c07(&c, &sh, ev),
                "C08" => c08(&c, ev),
                "C09" => c09(&c, ev),
                "C10" => c10(&c, ev),
                "C11" => c11(&c, ev),
                "C12" => c12(&c, &quote, ev),
                "C13" => c13(&c, ev),
                "C14" => c14(&c, ev),
                "C16" => c16(&c, ev),
                "C17" => c17(&c, ev),
                "C18" => c18(&c, ev),
                "C23" => c23(&c, &mut rng, ev),
                "C25" => c25(&c, ev),
                "C26" => c26(&c, ev),
                _ => Ok(()),
            }));
            match r {
                Ok(v) => v,
                Err(_) => Err(format!("monitor could not evaluate the observed state: {}", last_panic())),
            }
        };
        if let Err(m) = v {
            out.violation = Some((n, m));
            return out;
        }
        if nested && res.is_ok() {
            sh.valid = false;
        }
        shadow_step(&mut sh, &c);
        let v: V = match prop {
            "C24" => c24(&c, &sh, ev),
            "C07" if n % 3 == 2 || n + 1 == steps => c07_probe(&sc.w, &post, &sh, &mut rng, ev, n + 1 == steps),
            "C10" if n % 4 == 3 => c10_listing(&sc.w, &post),
            "C15" if n % 6 == 5 || (profile == Profile::Bulk && n + 1 == steps) => {
                if profile != Profile::Bulk || n % 30 == 29 || n + 1 == steps { c15(&sc.w, &post, &mut rng, ev) } else { Ok(()) }
            }
            "C05" if n % 16 == 15 || n + 1 == steps => c05_bits(&sc.w, &post),
            "C01" if n % 5 == 4 || n + 1 == steps => match liquidate(&sc.w, &post, &mut rng) {
                Ok(k) => {
                    *ev.counts.entry("claims paid in full liquidations".into()).or_insert(0) += k;
                    Ok(())
                }
                Err((true, m)) => Err(format!("cannot pay everyone: {}", m)),
                Err(_) => Ok(()),
            },
            "C16" if n % 4 == 3 || n + 1 == steps => match liquidate(&sc.w, &post, &mut rng) {
                Ok(k) => {
                    *ev.counts.entry("exits performed on forks".into()).or_insert(0) += k;
                    Ok(())
                }
                Err((_, m)) => Err(m),
            },
            "C27" if n % 6 == 5 => {
                let w = sc.w.clone();
                let known = Known { users: sc.known.users.clone(), ticks: sc.known.ticks.clone() };
                c27(&w, &known, &post, &mut sc, ev)
            }
            "C04" if n % 20 == 11 => c04_dust(&mut sc, &post, ev),
            "C04" if n % 4 == 3 => c04_attack(&mut sc, &post, ev),
            #[cfg(feature = "c21")]
            "C21" => crate::sdk::probe(&mut sc, &post, n, ev),
            _ => Ok(()),
        };
        if let Err(m) = v {
            out.violation = Some((n, m));
            return out;
        }
        if out.violation.is_some() {
            return out;
        }
        pre = post;
    }
    if seed % 8 == 3 {
        let v = match prop {
            "C14" | "C18" => crate::family::pools(prop, &sc, &pre, &mut rng, ev),
            "C10" | "C11" => crate::family::people(prop, &sc, &pre, &mut rng, ev),
            _ => Ok(()),
        };
        if let Err(m) = v {
            out.violation = Some((steps.saturating_sub(1), m));
        }
    }
    out
}

fn c05_bits(w: &World, s: &Snap) -> V {
    for k in s.pools.keys() {
        let m = s.model(k).unwrap();
        let init: BTreeSet<i32> = m.ticks().keys().copied().collect();
        let bits = all_bits(w, k).map_err(|e| format!("tick map query failed: {:?}", e))?;
        ensure!(bits == init, "tick map of {:?} flags {:?}, open positions use {:?}", k, bits, init);
    }
    Ok(())
}

/// The state before, including ticks that the next request mentions for the first time.
fn snap_if_needed(a: &World, sc: &Scen, pre: &Snap) -> Result<Snap, String> {
    let _ = (a, sc);
    // unrecorded ticks are absent from a snapshot, so the earlier one is already complete
    Ok(pre.clone())
}

/// Many pools, positions, operators and full tick-map words.
fn bulk_setup(sc: &mut Scen) {
    let admin = "orai1admin";
    let npools = sc.rng.range(3, 115);
    let _ = sc.w.exec(admin, &ExecuteMsg::AddFeeTier { fee_tier: tier((1_000_000_000, 1)) }, &[]);
    let _ = sc.w.exec(admin, &ExecuteMsg::AddFeeTier { fee_tier: tier((1_000_000_000, 10)) }, &[]);
    for i in 0..npools {
        let m = ExecuteMsg::CreatePool { token_0: format!("bulk{}", i), token_1: format!("bulk{}x", sc.rng.below(8)), fee_tier: tier((1_000_000_000, 10)), init_sqrt_price: sp(refm::price(0)), init_tick: 0 };
        let _ = sc.w.exec(admin, &m, &[]);
    }
    for t in ["orai1tokena", "orai1tokenb"] {
        for u in sc.users.clone() {
            if sc.w.balance(t, &u) == 0 {
                sc.w.set_balance(t, &u, START);
            }
        }
    }
    for t in [1u16, 10] {
        let k: PK = ("orai1tokena".into(), "orai1tokenb".into(), 1_000_000_000, t);
        let m = ExecuteMsg::CreatePool { token_0: k.1.clone(), token_1: k.0.clone(), fee_tier: tier((k.2, t)), init_sqrt_price: sp(refm::price(0)), init_tick: 0 };
        let _ = sc.w.exec(admin, &m, &[]);
        let s = t as i32;
        // fill whole words with initialised ticks
        let q = refm::MAX_TICK / s;
        let c = q / 64 + sc.rng.range(-3, 3) as i32;
        let first = (c * 64 - q) * s;
        let n = sc.rng.range(64, 140) as i32;
        for j in 0..n {
            let lo = first + j * s;
            let hi = lo + s * sc.rng.range(1, 66) as i32;
            sc.known.ticks.entry(k.clone()).or_default().extend([lo, hi]);
            let m = ExecuteMsg::CreatePosition { pool_key: key(&k), lower_tick: lo, upper_tick: hi, liquidity_delta: oraiswap_v3::liquidity::Liquidity(1_000_000 + j as u128), slippage_limit_lower: sp(0), slippage_limit_upper: sp(u128::MAX) };
            let u = if j % 3 == 0 { "orai1bob" } else { "orai1alice" };
            let _ = sc.w.exec(u, &m, &[]);
        }
    }
}

fn crowd_setup(sc: &mut Scen, pre: &Snap) {
    sc.max_pos = 1000;
    let Some(k) = pre.pools.keys().next().cloned() else { return };
    let sp_ = k.3 as i32;
    let n = sc.rng.range(256, 275);
    for i in 0..n {
        let lo = refm::floor_align(sc.rng.range(-20_000, 20_000) as i32, sp_);
        let hi = lo + sp_ * sc.rng.range(1, 40) as i32;
        sc.known.ticks.entry(k.clone()).or_default().extend([lo, hi]);
        let m = ExecuteMsg::CreatePosition { pool_key: key(&k), lower_tick: lo, upper_tick: hi, liquidity_delta: oraiswap_v3::liquidity::Liquidity(1_000_000 + i as u128), slippage_limit_lower: sp(0), slippage_limit_upper: sp(u128::MAX) };
        let funds = [&k.0, &k.1].iter().filter(|t| is_native(t)).map(|t| crate::chain::coin(t, START / 1_000_000)).collect::<Vec<_>>();
        let _ = sc.w.exec("orai1bob", &m, &funds);
    }
}

pub fn pool_key_of(k: &PK) -> PoolKey {
    key(k)
}
