//! Executable specification of one operation: from the observed state before and the request, what
//! must happen (refusal, or the state, the payments and the report afterwards).
use crate::big::*;
use crate::chain::*;
use crate::obs::*;
use crate::refm::{self, SwapM};
use cosmwasm_std::{Addr, Coin};
use cw20::Expiration;
use decimal::Decimal;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::interface::Approval;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::ExecuteMsg;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{Pool, Position};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Block {
    pub height: u64,
    pub nanos: u64,
}
impl Block {
    pub fn of(w: &World) -> Block {
        Block { height: w.height, nanos: w.time_ns }
    }
    pub fn millis(&self) -> u64 {
        self.nanos / 1_000_000
    }
    pub fn expired(&self, e: &Expiration) -> bool {
        match e {
            Expiration::AtHeight(h) => self.height >= *h,
            Expiration::AtTime(t) => self.nanos >= t.nanos(),
            Expiration::Never {} => false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum ListOp {
    Push(String),
    SwapRemove(String, usize),
    /// remove from (user, index), push to user
    Move(String, usize, String),
}

#[derive(Clone, Debug)]
pub struct SwapExp {
    pub pool: PK,
    pub xy: bool,
    pub by_in: bool,
    pub amount: u128,
    pub limit: u128,
    pub price_before: u128,
    pub m: SwapM,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub post: Snap,
    pub list: Vec<ListOp>,
    /// payer -> token -> amount due to the contract, in order
    pub due: Vec<(String, u128)>,
    /// tokens paid by the contract: (token, to, amount), in order
    pub paid: Vec<(String, String, u128)>,
    pub swaps: Vec<SwapExp>,
    pub attrs: Vec<(&'static str, String)>,
    /// pool touched and ticks allowed to change in it
    pub touched: BTreeMap<PK, BTreeSet<i32>>,
    pub kind: &'static str,
    /// for closing/collecting: (owner, index)
    pub target: Option<(String, usize)>,
    /// coins that may be attached and must be given back if not due
    pub coins: BTreeSet<String>,
}

pub type R = Result<Exp, &'static str>;

pub fn is_native(t: &str) -> bool {
    !is_addr(t)
}

/// growth inside a range from observed counters
pub fn inside(ps: &PoolSnap, lo: i32, hi: i32) -> Option<(u128, u128)> {
    let (a, z) = (ps.ticks.get(&lo)?, ps.ticks.get(&hi)?);
    let p = &ps.pool;
    let f = |g: u128, ol: u128, oh: u128| {
        let below = if p.current_tick_index >= lo { ol } else { g.wrapping_sub(ol) };
        let above = if p.current_tick_index < hi { oh } else { g.wrapping_sub(oh) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    Some((
        f(p.fee_growth_global_x.0, a.fee_growth_outside_x.0, z.fee_growth_outside_x.0),
        f(p.fee_growth_global_y.0, a.fee_growth_outside_y.0, z.fee_growth_outside_y.0),
    ))
}

/// uncollected growth of a position from observed counters (x, y)
pub fn owed_growth(s: &Snap, q: &Position) -> Option<(u128, u128)> {
    let ps = s.pools.get(&pk(&q.pool_key))?;
    let (ix, iy) = inside(ps, q.lower_tick_index, q.upper_tick_index)?;
    Some((ix.wrapping_sub(q.fee_growth_inside_x.0), iy.wrapping_sub(q.fee_growth_inside_y.0)))
}

pub fn growth_to_fee(g: u128, l: u128) -> Option<u128> {
    to128(b(g) * b(l) / p10(34))
}

pub fn fees_observed(s: &Snap, q: &Position) -> Option<(u128, u128)> {
    let (gx, gy) = owed_growth(s, q)?;
    Some((
        growth_to_fee(gx, q.liquidity.0)?.checked_add(q.tokens_owed_x.0)?,
        growth_to_fee(gy, q.liquidity.0)?.checked_add(q.tokens_owed_y.0)?,
    ))
}

fn base(pre: &Snap, kind: &'static str) -> Exp {
    Exp {
        post: pre.clone(),
        list: vec![],
        due: vec![],
        paid: vec![],
        swaps: vec![],
        attrs: vec![],
        touched: BTreeMap::new(),
        kind,
        target: None,
        coins: BTreeSet::new(),
    }
}

pub fn split_id(id: &[u8]) -> Option<(String, usize)> {
    if id.len() < 4 {
        return None;
    }
    let (o, i) = id.split_at(id.len() - 4);
    Some((String::from_utf8(o.to_vec()).ok()?, u32::from_be_bytes(i.try_into().ok()?) as usize))
}

pub fn operator_ok(pre: &Snap, blk: Block, owner: &str, who: &str) -> bool {
    pre.operators
        .get(owner)
        .map(|v| v.iter().any(|a| a.spender == who && !blk.expired(&a.expires)))
        .unwrap_or(false)
}

pub fn may_send(pre: &Snap, blk: Block, owner: &str, idx: usize, who: &str) -> bool {
    owner == who
        || pre.users.get(owner).and_then(|v| v.get(idx)).map_or(false, |p| {
            p.approvals.iter().any(|a| a.spender == who && !blk.expired(&a.expires))
        })
        || operator_ok(pre, blk, owner, who)
}

fn do_swap(
    e: &mut Exp,
    k: &PK,
    xy: bool,
    amount: u128,
    by_in: bool,
    limit: u128,
    sender: &str,
    blk: Block,
) -> Result<(u128, u128), &'static str> {
    let pf = e.post.protocol_fee;
    let m = e.post.model(k).ok_or("NoPool")?;
    if amount == 0 {
        return Err("AmountIsZero");
    }
    let s = m.swap(xy, amount, by_in, limit, pf)?;
    let ps = e.post.pools.get_mut(k).unwrap();
    let p = &mut ps.pool;
    let before = p.sqrt_price.get();
    p.sqrt_price = sp(s.price);
    p.current_tick_index = s.tick;
    p.liquidity = Liquidity(s.liq);
    for f in &s.fees {
        if xy {
            p.fee_growth_global_x = FeeGrowth(p.fee_growth_global_x.0.wrapping_add(f.growth));
            p.fee_protocol_token_x = TokenAmount(p.fee_protocol_token_x.0.checked_add(f.protocol).ok_or("add")?);
        } else {
            p.fee_growth_global_y = FeeGrowth(p.fee_growth_global_y.0.wrapping_add(f.growth));
            p.fee_protocol_token_y = TokenAmount(p.fee_protocol_token_y.0.checked_add(f.protocol).ok_or("add")?);
        }
    }
    if !s.crossed.is_empty() {
        p.last_timestamp = blk.millis();
    }
    let t = e.touched.entry(k.clone()).or_default();
    t.extend(s.crossed.iter().copied());
    let (tin, tout) = if xy { (&k.0, &k.1) } else { (&k.1, &k.0) };
    e.due.push((tin.clone(), s.ain));
    e.paid.push((tout.clone(), sender.into(), s.aout));
    e.coins.insert(tin.clone());
    let r = (s.ain, s.aout);
    e.swaps.push(SwapExp { pool: k.clone(), xy, by_in, amount, limit, price_before: before, m: s });
    Ok(r)
}

fn create(
    pre: &Snap,
    blk: Block,
    sender: &str,
    k: PK,
    lo: i32,
    hi: i32,
    liq: u128,
    sl: (u128, u128),
) -> R {
    let mut e = base(pre, "create");
    let ps = pre.pools.get(&k).ok_or("NoPool")?;
    if liq == 0 {
        return Err("ZeroLiquidity");
    }
    if lo >= hi {
        return Err("RangeOrder");
    }
    if !refm::valid_tick(lo, k.3) || !refm::valid_tick(hi, k.3) {
        return Err("BadTick");
    }
    let p = &ps.pool;
    let price = p.sqrt_price.get();
    if price < sl.0 || price > sl.1 {
        return Err("Slippage");
    }
    let m = pre.model(&k).unwrap();
    for t in [lo, hi] {
        let mut g = b(liq);
        for q in &m.pos {
            if q.0 == t || q.1 == t {
                g = g + b(q.2);
            }
        }
        if g >= b(refm::max_liq_per_tick(k.3)) {
            return Err("TickCap");
        }
    }
    let (x, y) = refm::amount_delta(p.current_tick_index, price, liq, true, lo, hi)?;
    let np = Position {
        pool_key: key(&k),
        liquidity: Liquidity(liq),
        lower_tick_index: lo,
        upper_tick_index: hi,
        last_block_number: blk.height,
        ..Default::default()
    };
    {
        let pp = &mut e.post.pools.get_mut(&k).unwrap().pool;
        if p.current_tick_index >= lo && p.current_tick_index < hi {
            pp.liquidity = Liquidity(pp.liquidity.0.checked_add(liq).ok_or("PoolLiquidity")?);
        }
        pp.last_timestamp = blk.millis();
    }
    e.post.users.entry(sender.into()).or_default().push(np);
    e.list.push(ListOp::Push(sender.into()));
    e.touched.entry(k.clone()).or_default().extend([lo, hi]);
    e.due.push((k.0.clone(), x));
    e.due.push((k.1.clone(), y));
    e.coins.insert(k.0.clone());
    e.coins.insert(k.1.clone());
    e.attrs = vec![("liquidity", liq.to_string()), ("lower_tick", lo.to_string()), ("upper_tick", hi.to_string())];
    Ok(e)
}

fn remove(pre: &Snap, blk: Block, owner: &str, idx: usize) -> R {
    let mut e = base(pre, "remove");
    let q = pre.users.get(owner).and_then(|v| v.get(idx)).ok_or("NoPosition")?.clone();
    let k = pk(&q.pool_key);
    let ps = pre.pools.get(&k).ok_or("NoPool")?;
    let p = &ps.pool;
    let (lo, hi, l) = (q.lower_tick_index, q.upper_tick_index, q.liquidity.0);
    let (x, y) = refm::amount_delta(p.current_tick_index, p.sqrt_price.get(), l, false, lo, hi)?;
    let (fx, fy) = fees_observed(pre, &q).ok_or("fees")?;
    {
        let pp = &mut e.post.pools.get_mut(&k).unwrap().pool;
        if p.current_tick_index >= lo && p.current_tick_index < hi {
            pp.liquidity = Liquidity(pp.liquidity.0.checked_sub(l).ok_or("PoolLiquidity")?);
        }
        pp.last_timestamp = blk.millis();
    }
    e.post.users.get_mut(owner).unwrap().swap_remove(idx);
    e.list.push(ListOp::SwapRemove(owner.into(), idx));
    e.touched.entry(k.clone()).or_default().extend([lo, hi]);
    e.paid.push((k.0.clone(), owner.into(), x.checked_add(fx).ok_or("add")?));
    e.paid.push((k.1.clone(), owner.into(), y.checked_add(fy).ok_or("add")?));
    e.attrs = vec![("liquidity", l.to_string()), ("lower_tick", lo.to_string()), ("upper_tick", hi.to_string())];
    e.target = Some((owner.into(), idx));
    Ok(e)
}

fn mv(pre: &Snap, owner: &str, idx: usize, to: &str, kind: &'static str) -> R {
    let mut e = base(pre, kind);
    let v = e.post.users.get_mut(owner).ok_or("NoPosition")?;
    if idx >= v.len() {
        return Err("NoPosition");
    }
    let mut q = v.swap_remove(idx);
    q.approvals.clear();
    e.post.users.entry(to.into()).or_default().push(q);
    e.list.push(ListOp::Move(owner.into(), idx, to.into()));
    e.target = Some((owner.into(), idx));
    Ok(e)
}

/// What must happen, leaving payments aside.
pub fn spec(pre: &Snap, blk: Block, sender: &str, msg: &ExecuteMsg) -> R {
    use ExecuteMsg::*;
    let admin = || if pre.admin == sender { Ok(()) } else { Err("Unauthorized") };
    match msg {
        ChangeAdmin { new_admin } => {
            admin()?;
            let mut e = base(pre, "change_admin");
            e.post.admin = new_admin.to_string();
            Ok(e)
        }
        ChangeProtocolFee { protocol_fee } => {
            admin()?;
            let mut e = base(pre, "change_protocol_fee");
            e.post.protocol_fee = protocol_fee.0;
            Ok(e)
        }
        ChangeFeeReceiver { pool_key, fee_receiver } => {
            admin()?;
            let mut e = base(pre, "change_fee_receiver");
            let k = pk(pool_key);
            e.post.pools.get_mut(&k).ok_or("NoPool")?.pool.fee_receiver = fee_receiver.to_string();
            e.touched.entry(k).or_default();
            Ok(e)
        }
        WithdrawProtocolFee { pool_key } => {
            let mut e = base(pre, "withdraw_protocol_fee");
            let k = pk(pool_key);
            let p = &mut e.post.pools.get_mut(&k).ok_or("NoPool")?.pool;
            if p.fee_receiver != sender {
                return Err("Unauthorized");
            }
            let (x, y) = (p.fee_protocol_token_x.0, p.fee_protocol_token_y.0);
            p.fee_protocol_token_x = TokenAmount(0);
            p.fee_protocol_token_y = TokenAmount(0);
            e.paid.push((k.0.clone(), sender.into(), x));
            e.paid.push((k.1.clone(), sender.into(), y));
            e.touched.entry(k).or_default();
            Ok(e)
        }
        AddFeeTier { fee_tier } => {
            admin()?;
            let t = (fee_tier.fee.0, fee_tier.tick_spacing);
            if t.1 == 0 || t.1 > 100 {
                return Err("BadSpacing");
            }
            if t.0 >= refm::ONE_PCT {
                return Err("BadFee");
            }
            if pre.tiers.contains(&t) {
                return Err("TierExists");
            }
            let mut e = base(pre, "add_fee_tier");
            e.post.tiers.push(t);
            Ok(e)
        }
        RemoveFeeTier { fee_tier } => {
            admin()?;
            let t = (fee_tier.fee.0, fee_tier.tick_spacing);
            let mut e = base(pre, "remove_fee_tier");
            let i = e.post.tiers.iter().position(|x| *x == t).ok_or("NoTier")?;
            e.post.tiers.remove(i);
            Ok(e)
        }
        CreatePool { token_0, token_1, fee_tier, init_sqrt_price, init_tick } => {
            let t = (fee_tier.fee.0, fee_tier.tick_spacing);
            if !pre.tiers.contains(&t) {
                return Err("NoTier");
            }
            if token_0 == token_1 {
                return Err("SameToken");
            }
            if !refm::valid_tick(*init_tick, t.1) {
                return Err("BadTick");
            }
            if !refm::price_fits_tick(*init_tick, t.1, init_sqrt_price.get()) {
                return Err("BadPrice");
            }
            let (a, z) = if token_0 < token_1 { (token_0, token_1) } else { (token_1, token_0) };
            let k: PK = (a.clone(), z.clone(), t.0, t.1);
            if pre.pools.contains_key(&k) {
                return Err("PoolExists");
            }
            let mut e = base(pre, "create_pool");
            let pool = Pool {
                sqrt_price: *init_sqrt_price,
                current_tick_index: *init_tick,
                start_timestamp: blk.millis(),
                last_timestamp: blk.millis(),
                fee_receiver: pre.admin.clone(),
                ..Default::default()
            };
            e.post.pools.insert(k.clone(), PoolSnap { pool, ticks: BTreeMap::new(), bits: BTreeSet::new() });
            e.touched.entry(k).or_default();
            Ok(e)
        }
        CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper } => create(
            pre,
            blk,
            sender,
            pk(pool_key),
            *lower_tick,
            *upper_tick,
            liquidity_delta.0,
            (slippage_limit_lower.get(), slippage_limit_upper.get()),
        ),
        Mint { extension: x } => create(
            pre,
            blk,
            sender,
            pk(&x.pool_key),
            x.lower_tick,
            x.upper_tick,
            x.liquidity_delta.0,
            (x.slippage_limit_lower.get(), x.slippage_limit_upper.get()),
        ),
        Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
            let mut e = base(pre, "swap");
            let k = pk(pool_key);
            let (i, o) = do_swap(&mut e, &k, *x_to_y, amount.0, *by_amount_in, sqrt_price_limit.get(), sender, blk)?;
            e.attrs = vec![("amount_in", i.to_string()), ("amount_out", o.to_string())];
            Ok(e)
        }
        SwapRoute { amount_in, expected_amount_out, slippage, swaps } => {
            let mut e = base(pre, "swap_route");
            let mut a = amount_in.0;
            for h in swaps {
                let limit = if h.x_to_y { refm::MIN_P } else { refm::MAX_P };
                a = do_swap(&mut e, &pk(&h.pool_key), h.x_to_y, a, true, limit, sender, blk)?.1;
            }
            if slippage.0 > refm::ONE_PCT {
                return Err("BadSlippage");
            }
            let min = refm::mul_pct_up(expected_amount_out.0, refm::ONE_PCT - slippage.0);
            if a < min {
                return Err("MinOut");
            }
            e.attrs = vec![("amount_out", a.to_string())];
            Ok(e)
        }
        TransferPosition { index, receiver } => {
            let e = mv(pre, sender, *index as usize, receiver, "transfer")?;
            if !is_addr(receiver) {
                return Err("BadAddress");
            }
            Ok(e)
        }
        ClaimFee { index } => {
            let idx = *index as usize;
            let q = pre.users.get(sender).and_then(|v| v.get(idx)).ok_or("NoPosition")?.clone();
            let k = pk(&q.pool_key);
            let mut e = base(pre, "claim");
            let (fx, fy) = fees_observed(pre, &q).ok_or("fees")?;
            e.post.pools.get_mut(&k).ok_or("NoPool")?.pool.last_timestamp = blk.millis();
            e.paid.push((k.0.clone(), sender.into(), fx));
            e.paid.push((k.1.clone(), sender.into(), fy));
            e.attrs = vec![("amount_x", fx.to_string()), ("amount_y", fy.to_string())];
            e.touched.entry(k).or_default();
            e.target = Some((sender.into(), idx));
            Ok(e)
        }
        RemovePosition { index } => remove(pre, blk, sender, *index as usize),
        Burn { token_id } => {
            let (o, i) = split_id(token_id.as_slice()).ok_or("BadId")?;
            if pre.users.get(&o).map_or(true, |v| i >= v.len()) {
                return Err("NoPosition");
            }
            if !may_send(pre, blk, &o, i, sender) {
                return Err("Unauthorized");
            }
            let mut e = remove(pre, blk, &o, i)?;
            e.kind = "burn";
            Ok(e)
        }
        TransferNft { recipient, token_id } => {
            let (o, i) = split_id(token_id.as_slice()).ok_or("BadId")?;
            let e = mv(pre, &o, i, recipient.as_str(), "transfer_nft")?;
            if !may_send(pre, blk, &o, i, sender) {
                return Err("Unauthorized");
            }
            Ok(e)
        }
        SendNft { contract, token_id, .. } => {
            let (o, i) = split_id(token_id.as_slice()).ok_or("BadId")?;
            let e = mv(pre, &o, i, contract.as_str(), "send_nft")?;
            if !may_send(pre, blk, &o, i, sender) {
                return Err("Unauthorized");
            }
            Ok(e)
        }
        Approve { spender, token_id, expires } => {
            let (o, i) = split_id(token_id.as_slice()).ok_or("BadId")?;
            let mut e = base(pre, "approve");
            let q = e.post.users.get_mut(&o).and_then(|v| v.get_mut(i)).ok_or("NoPosition")?;
            if o != sender && !operator_ok(pre, blk, &o, sender) {
                return Err("Unauthorized");
            }
            let expires = expires.unwrap_or_default();
            if blk.expired(&expires) {
                return Err("Expired");
            }
            q.approvals.retain(|a| a.spender != *spender);
            q.approvals.push(Approval { spender: spender.clone(), expires });
            Ok(e)
        }
        Revoke { spender, token_id } => {
            let (o, i) = split_id(token_id.as_slice()).ok_or("BadId")?;
            let mut e = base(pre, "revoke");
            let q = e.post.users.get_mut(&o).and_then(|v| v.get_mut(i)).ok_or("NoPosition")?;
            if o != sender && !operator_ok(pre, blk, &o, sender) {
                return Err("Unauthorized");
            }
            q.approvals.retain(|a| a.spender != *spender);
            Ok(e)
        }
        ApproveAll { operator, expires } => {
            let mut e = base(pre, "approve_all");
            let expires = expires.unwrap_or_default();
            if blk.expired(&expires) {
                return Err("Expired");
            }
            let v = e.post.operators.entry(sender.into()).or_default();
            v.retain(|a| a.spender != *operator);
            v.push(Approval { spender: operator.clone(), expires });
            v.sort_by(|a, b| a.spender.as_bytes().cmp(b.spender.as_bytes()));
            Ok(e)
        }
        RevokeAll { operator } => {
            let mut e = base(pre, "revoke_all");
            e.post.operators.entry(sender.into()).or_default().retain(|a| a.spender != *operator);
            Ok(e)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pay {
    Ok,
    /// must be refused
    Short,
    /// depends on the order of transfers: no expectation
    Unknown,
}

pub fn native_due(e: &Exp) -> BTreeMap<String, u128> {
    let mut m = BTreeMap::new();
    for (t, a) in &e.due {
        if is_native(t) && *a > 0 {
            *m.entry(t.clone()).or_insert(0u128) += *a;
        }
    }
    m
}

/// Can the caller pay? `w` is the state before the operation.
pub fn payable(e: &Exp, w: &World, sender: &str, funds: &[Coin], fail: Option<&str>) -> Pay {
    for c in funds {
        if w.balance(&c.denom, sender) < c.amount.u128() {
            return Pay::Short;
        }
    }
    if let Some(t) = fail {
        let moved = e.due.iter().any(|(x, a)| x == t && *a > 0) || e.paid.iter().any(|(x, _, a)| x == t && *a > 0);
        let refund = funds.iter().any(|c| c.denom == t);
        if moved && !is_native(t) {
            return Pay::Short;
        }
        if moved || refund {
            return Pay::Unknown;
        }
    }
    for (t, need) in native_due(e) {
        let have: u128 = funds.iter().filter(|c| c.denom == t).map(|c| c.amount.u128()).sum();
        if have < need {
            return Pay::Short;
        }
    }
    let mut cw: BTreeMap<&str, u128> = BTreeMap::new();
    for (t, a) in &e.due {
        if !is_native(t) {
            let x = cw.entry(t).or_insert(0);
            *x = x.saturating_add(*a);
        }
    }
    for (t, need) in cw {
        if need == 0 {
            continue;
        }
        let mut have = w.balance(t, sender);
        if let Some(a) = w.allow.get(&(t.to_string(), sender.to_string())) {
            if *a < need {
                return Pay::Short;
            }
            have = have.min(u128::MAX);
        }
        if have < need {
            if e.paid.iter().any(|(x, to, _)| x == t && to == sender) {
                return Pay::Unknown;
            }
            return Pay::Short;
        }
    }
    Pay::Ok
}

/// Net change per (token, account) that the operation must cause.
pub fn net(e: &Exp, sender: &str) -> BTreeMap<(String, String), i128> {
    let mut m: BTreeMap<(String, String), i128> = BTreeMap::new();
    let mut add = |t: &str, who: &str, v: i128| {
        *m.entry((t.to_string(), who.to_string())).or_insert(0) += v;
    };
    for (t, a) in &e.due {
        add(t, sender, -(*a as i128));
        add(t, CONTRACT, *a as i128);
    }
    for (t, to, a) in &e.paid {
        add(t, to, *a as i128);
        add(t, CONTRACT, -(*a as i128));
    }
    m.retain(|_, v| *v != 0);
    m
}

pub fn net_observed(a: &World, z: &World) -> BTreeMap<(String, String), i128> {
    let mut m = BTreeMap::new();
    let toks: BTreeSet<&String> = a.bal.keys().chain(z.bal.keys()).collect();
    for t in toks {
        let whos: BTreeSet<&String> = a
            .bal
            .get(t)
            .into_iter()
            .flat_map(|x| x.keys())
            .chain(z.bal.get(t).into_iter().flat_map(|x| x.keys()))
            .collect();
        for u in whos {
            let d = z.balance(t, u) as i128 - a.balance(t, u) as i128;
            if d != 0 {
                m.insert((t.clone(), u.clone()), d);
            }
        }
    }
    m
}

pub fn addr(s: &str) -> Addr {
    Addr::unchecked(s)
}
