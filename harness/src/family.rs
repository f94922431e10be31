//! Name families: long token names, tiers and addresses that differ from a base in one place only.
//! Everything stored for the base must stay apart from everything stored for its relatives.
use crate::chain::*;
use crate::mon::{Ev, V};
use crate::obs::*;
use crate::refm;
use crate::rng::Rng;
use crate::scen::{tier, Scen};
use cosmwasm_std::{Addr, Coin};
use oraiswap_v3::interface::ApprovedForAllResponse;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::{Pool, Tick};

const AL: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn addr(rng: &mut Rng) -> String {
    let n = *rng.pick(&[38usize, 38, 58, 58, 20]);
    let mut s = String::from("orai1");
    for _ in 0..n {
        s.push(AL[rng.below(32) as usize] as char);
    }
    s
}

fn denom(rng: &mut Rng) -> String {
    let hex = |rng: &mut Rng| b"0123456789ABCDEF"[rng.below(16) as usize] as char;
    match rng.below(3) {
        0 => format!("ibc/{}", (0..64).map(|_| hex(rng)).collect::<String>()),
        1 => {
            let a = addr(rng);
            format!("factory/{}/{}", a, (0..rng.range(1, 44)).map(|_| hex(rng)).collect::<String>())
        }
        _ => addr(rng),
    }
}

/// Names of the same shape, each differing from `base` in one character, and the two neighbours in length.
fn relatives(rng: &mut Rng, base: &str) -> Vec<String> {
    let b = base.as_bytes();
    let fixed = if base.starts_with("orai1") { 5 } else { 0 };
    let mut v = vec![];
    for i in fixed..b.len() {
        let mut c = b.to_vec();
        c[i] = match b[i] {
            x @ b'0'..=b'9' => b'0' + (x - b'0' + 1 + rng.below(9) as u8) % 10,
            x @ b'a'..=b'z' => b'a' + (x - b'a' + 1 + rng.below(25) as u8) % 26,
            x @ b'A'..=b'F' => b'A' + (x - b'A' + 1 + rng.below(5) as u8) % 6,
            _ => continue,
        };
        let s = String::from_utf8(c).unwrap();
        // a change in the first letters must not make a native name look like an address
        if is_addr(&s) == is_addr(base) {
            v.push(s);
        }
    }
    v.push(format!("{}{}", base, AL[rng.below(32) as usize] as char));
    v.push(base[..base.len() - 1].to_string());
    v
}

fn purse(w: &World, toks: [&String; 2], who: &str) -> Vec<Coin> {
    let mut v: Vec<Coin> = toks.iter().filter(|d| !is_addr(d)).map(|d| coin(d, w.balance(d, who))).filter(|c| !c.amount.is_zero()).collect();
    v.sort_by(|a, z| a.denom.cmp(&z.denom));
    v
}

const RICH: u128 = 1 << 70;

fn open(w: &mut World, k: &PK, who: &str, lo: i32, hi: i32, l: u128) -> Res {
    for t in [&k.0, &k.1] {
        w.set_balance(t, who, RICH);
    }
    let m = ExecuteMsg::CreatePosition { pool_key: key(k), lower_tick: lo, upper_tick: hi, liquidity_delta: Liquidity(l), slippage_limit_lower: sp(0), slippage_limit_upper: sp(u128::MAX) };
    let f = purse(w, [&k.0, &k.1], who);
    w.exec(who, &m, &f)
}

fn pool(w: &World, k: &PK, swap: bool) -> Result<Pool, ErrKind> {
    let (a, z) = if swap { (k.1.clone(), k.0.clone()) } else { (k.0.clone(), k.1.clone()) };
    w.query(QueryMsg::Pool { token_0: a, token_1: z, fee_tier: tier((k.2, k.3)) })
}

fn create(w: &mut World, rng: &mut Rng, k: &PK, t: i32) -> Res {
    let (a, z) = if rng.chance(1, 2) { (k.0.clone(), k.1.clone()) } else { (k.1.clone(), k.0.clone()) };
    w.exec("orai1bob", &ExecuteMsg::CreatePool { token_0: a, token_1: z, fee_tier: tier((k.2, k.3)), init_sqrt_price: sp(refm::price(t)), init_tick: t }, &[])
}

fn tick(w: &World, k: &PK, i: i32) -> Option<Tick> {
    w.query::<Tick>(QueryMsg::Tick { key: key(k), index: i }).ok()
}
fn flagged(w: &World, k: &PK, i: i32) -> Result<bool, String> {
    w.query::<bool>(QueryMsg::IsTickInitialized { key: key(k), index: i }).map_err(|e| format!("tick flag query failed: {:?}", e))
}

/// Pools whose key differs from a base in one place.
pub fn pools(prop: &str, sc: &Scen, s: &Snap, rng: &mut Rng, ev: &mut Ev) -> V {
    let mut w = sc.w.clone();
    w.fail_token = None;
    w.hook = None;
    // the tier of the base
    let spacing = 1 + rng.below(100) as u16;
    let fee = rng.below(1 << 36);
    let mut tiers = vec![(fee, spacing)];
    let by_tier = rng.chance(1, 3);
    if by_tier {
        tiers.extend((0..36).map(|b| (fee ^ 1 << b, spacing)));
        tiers.extend((0..7).map(|b| (fee, spacing ^ 1 << b)).filter(|t| t.1 > 0 && t.1 <= 100));
    }
    let admin = s.admin.clone();
    for t in &tiers {
        if !s.tiers.contains(t) && w.exec(&admin, &ExecuteMsg::AddFeeTier { fee_tier: tier(*t) }, &[]).is_err() {
            if prop == "C14" {
                return Err(format!("the administrator could not add tier {:?} with others of the family {:?} present", t, tiers[0]));
            }
            return Ok(());
        }
    }
    let (a, z) = (denom(rng), denom(rng));
    if a == z {
        return Ok(());
    }
    let mk = |a: &str, z: &str, t: (u64, u16)| -> PK {
        let (x, y) = if a < z { (a, z) } else { (z, a) };
        (x.into(), y.into(), t.0, t.1)
    };
    let base = mk(&a, &z, tiers[0]);
    let mut kin: Vec<PK> = if by_tier {
        tiers[1..].iter().map(|t| mk(&a, &z, *t)).collect()
    } else {
        let mut v: Vec<PK> = relatives(rng, &a).iter().filter(|n| **n != z).map(|n| mk(n, &z, tiers[0])).collect();
        // what one name loses the other gains
        if !is_addr(&a) && !is_addr(&z) {
            for cut in [1usize, 2, 5] {
                let (l, r) = (&base.0, &base.1);
                v.push(mk(&l[..l.len() - cut], &format!("{}{}", &l[l.len() - cut..], r), tiers[0]));
                v.push(mk(&format!("{}{}", l, &r[..cut]), &r[cut..], tiers[0]));
            }
        }
        v
    };
    kin.sort();
    kin.dedup();
    kin.retain(|k| *k != base && k.0 != k.1);
    // some of the family before the base, the rest after it
    let early: Vec<bool> = kin.iter().map(|_| rng.chance(1, 2)).collect();
    let start = |i: usize| (i as i32 % 50 + 1) * 100;
    let mut all: Vec<(PK, i32)> = vec![];
    for (i, k) in kin.iter().enumerate().filter(|(i, _)| early[*i]) {
        all.push((k.clone(), start(i) / k.3 as i32 * k.3 as i32));
    }
    all.push((base.clone(), 0));
    for (i, k) in kin.iter().enumerate().filter(|(i, _)| !early[*i]) {
        all.push((k.clone(), start(i) / k.3 as i32 * k.3 as i32));
    }
    for (k, t) in &all {
        if let Err(e) = create(&mut w, rng, k, *t) {
            if prop == "C14" {
                return Err(format!("creating pool {:?} was refused ({:?}) with only others of its family present, such as {:?}", k, e, base));
            }
            return Ok(());
        }
    }
    let read = |w: &World| -> Result<Vec<Pool>, String> {
        all.iter().map(|(k, _)| pool(w, k, false).map_err(|e| format!("pool {:?} is not found: {:?}", k, e))).collect()
    };
    let before = match read(&w) {
        Ok(v) => v,
        Err(m) => return if prop == "C14" { Err(m) } else { Ok(()) },
    };
    if prop == "C14" {
        for ((k, t), p) in all.iter().zip(&before) {
            if p.current_tick_index != *t || p.sqrt_price != sp(refm::price(*t)) {
                return Err(format!("pool {:?} was created at tick {} but is found as {:?}", k, t, p));
            }
            if pool(&w, k, true).as_ref() != Ok(p) {
                return Err(format!("pool {:?} is not the same with its tokens named in the other order", k));
            }
            if let Ok(_) = create(&mut w, rng, k, *t) {
                return Err(format!("pool {:?} was created twice", k));
            }
        }
        *ev.counts.entry("pools of name families".into()).or_insert(0) += all.len() as u64;
        return Ok(());
    }
    // the base is used; its relatives stay as they are
    let sp_ = base.3 as i32;
    let (lo, hi) = (-sp_ * rng.range(1, 30) as i32, sp_ * rng.range(1, 30) as i32);
    let user = addr(rng);
    if open(&mut w, &base, &user, lo, hi, 1 << rng.range(30, 60)).is_err() {
        return Ok(());
    }
    let f = purse(&w, [&base.0, &base.1], &user);
    let m = ExecuteMsg::Swap { pool_key: key(&base), x_to_y: true, amount: oraiswap_v3::token_amount::TokenAmount(1 << rng.range(5, 30)), by_amount_in: true, sqrt_price_limit: sp(refm::price(refm::min_tick(base.3))) };
    let _ = w.exec(&user, &m, &f);
    let after = read(&w).map_err(|m| format!("after using {:?}: {}", base, m))?;
    for (((k, _), p), q) in all.iter().zip(&before).zip(&after) {
        if *k == base {
            continue;
        }
        if p != q {
            return Err(format!("using pool {:?} changed pool {:?}: {:?} -> {:?}", base, k, p, q));
        }
        for t in [lo, hi] {
            if t % k.3 as i32 == 0 && (tick(&w, k, t).is_some() || flagged(&w, k, t)?) {
                return Err(format!("a position in {:?} put tick {} in {:?}", base, t, k));
            }
        }
    }
    // one relative is used at the same ticks; the base stays
    let (k, _) = rng.pick(&all).clone();
    let probe = |w: &World| -> (Result<Pool, ErrKind>, Option<Tick>, Option<Tick>, Result<bool, String>, Result<bool, String>) {
        (pool(w, &base, false), tick(w, &base, lo), tick(w, &base, hi), flagged(w, &base, lo), flagged(w, &base, hi))
    };
    if k != base {
        let was = probe(&w);
        let s2 = k.3 as i32;
        let (l2, h2) = (lo / s2 * s2, hi / s2 * s2);
        let opened = l2 < h2 && open(&mut w, &k, &user, l2, h2, 1 << 40).is_ok();
        if probe(&w) != was {
            return Err(format!("opening a position in {:?} changed {:?} or its ticks", k, base));
        }
        if opened {
            let n: u32 = w.query(QueryMsg::UserPositionAmount { owner: Addr::unchecked(&user) }).map_err(|e| format!("{:?}", e))?;
            let _ = w.exec(&user, &ExecuteMsg::RemovePosition { index: n - 1 }, &[]);
            if probe(&w) != was {
                return Err(format!("closing a position in {:?} changed {:?} or its ticks", k, base));
            }
        }
    }
    *ev.counts.entry("pools of name families".into()).or_insert(0) += all.len() as u64;
    Ok(())
}

/// Owners and operators whose addresses differ in one place.
pub fn people(prop: &str, sc: &Scen, s: &Snap, rng: &mut Rng, ev: &mut Ev) -> V {
    let Some(k) = s.pools.keys().next().cloned() else { return Ok(()) };
    let mut w = sc.w.clone();
    w.fail_token = None;
    w.hook = None;
    let base = addr(rng);
    let kin: Vec<String> = relatives(rng, &base).into_iter().filter(|n| is_addr(n)).collect();
    let sp_ = k.3 as i32;
    let lo = refm::floor_align(rng.range(-3000, 3000) as i32, sp_);
    let hi = lo + sp_ * rng.range(1, 20) as i32;
    let open1 = |w: &mut World, who: &str, l: u128| open(w, &k, who, lo, hi, l).is_ok();
    let amount = |w: &World, u: &str| -> Result<u32, String> { w.query(QueryMsg::UserPositionAmount { owner: Addr::unchecked(u) }).map_err(|e| format!("position count of {} failed: {:?}", u, e)) };
    for i in 0..2 {
        if !open1(&mut w, &base, 1000 + i) {
            return Ok(());
        }
    }
    let mine = positions_of(&w, &base).map_err(|e| format!("{:?}", e));
    if prop == "C10" {
        let mine = mine?;
        for u in &kin {
            let n = amount(&w, u)?;
            if n != 0 {
                return Err(format!("{} has {} positions after {} opened some", u, n, base));
            }
            let i = rng.below(2) as u32;
            for m in [ExecuteMsg::RemovePosition { index: i }, ExecuteMsg::TransferPosition { index: i, receiver: u.clone() }, ExecuteMsg::ClaimFee { index: i }] {
                let mut f = w.clone();
                if f.exec(u, &m, &[]).is_ok() {
                    return Err(format!("{} owns nothing, but {:?} was accepted; {} has positions", u, m, base));
                }
            }
        }
        // now some relatives open one each
        let few: Vec<&String> = kin.iter().filter(|_| rng.chance(1, 6)).collect();
        for (i, u) in few.iter().enumerate() {
            if !open1(&mut w, u, 2000 + i as u128) {
                return Ok(());
            }
        }
        for (i, u) in few.iter().enumerate() {
            let v = positions_of(&w, u).map_err(|e| format!("positions of {} failed: {:?}", u, e))?;
            if v.len() != 1 || v[0].liquidity.0 != 2000 + i as u128 {
                return Err(format!("{} opened one position of liquidity {}, now has {:?}", u, 2000 + i, v));
            }
        }
        let v = positions_of(&w, &base).map_err(|e| format!("positions of {} failed: {:?}", base, e))?;
        if v != mine {
            return Err(format!("positions of {} changed from {:?} to {:?} while others opened theirs", base, mine, v));
        }
        for u in &few {
            if w.exec(u, &ExecuteMsg::RemovePosition { index: 0 }, &[]).is_ok() {
                let v = positions_of(&w, &base).map_err(|e| format!("positions of {} failed: {:?}", base, e))?;
                if v != mine {
                    return Err(format!("positions of {} changed when {} closed its own", base, u));
                }
            }
        }
    } else {
        // one grant of each kind, to one operator
        let op = addr(rng);
        let lookalikes: Vec<String> = relatives(rng, &op).into_iter().filter(|n| is_addr(n)).collect();
        let by_all = rng.chance(1, 2);
        let grant = if by_all {
            ExecuteMsg::ApproveAll { operator: Addr::unchecked(&op), expires: None }
        } else {
            ExecuteMsg::Approve { spender: Addr::unchecked(&op), token_id: token_id(&base, 0), expires: None }
        };
        if mine.is_err() || w.exec(&base, &grant, &[]).is_err() {
            return Ok(());
        }
        let take = |owner: &str, to: &str| ExecuteMsg::TransferNft { recipient: Addr::unchecked(to), token_id: token_id(owner, 0) };
        for o in &lookalikes {
            let mut f = w.clone();
            if f.exec(o, &take(&base, o), &[]).is_ok() {
                return Err(format!("{} moved a position of {}, which granted that only to {}", o, base, op));
            }
            if by_all {
                let mut f = w.clone();
                let _ = f.exec(&base, &ExecuteMsg::RevokeAll { operator: Addr::unchecked(o) }, &[]);
                if f.exec(&op, &take(&base, &op), &[]).is_err() {
                    return Err(format!("revoking {} took the grant from {}", o, op));
                }
            }
        }
        for u in kin.iter().filter(|_| rng.chance(1, 3)) {
            if !open1(&mut w, u, 3000) {
                return Ok(());
            }
            let r: ApprovedForAllResponse = w
                .query(QueryMsg::ApprovedForAll { owner: Addr::unchecked(u), include_expired: Some(true), start_after: None, limit: None })
                .map_err(|e| format!("operators of {} failed: {:?}", u, e))?;
            if !r.operators.is_empty() {
                return Err(format!("{} granted nothing but has operators {:?}; {} granted {}", u, r.operators, base, op));
            }
            let mut f = w.clone();
            if f.exec(&op, &take(u, &op), &[]).is_ok() {
                return Err(format!("{} moved a position of {}, only {} granted it anything", op, u, base));
            }
        }
        let mut f = w.clone();
        if f.exec(&op, &take(&base, &op), &[]).is_err() {
            return Err(format!("{} was granted the position of {} but could not move it", op, base));
        }
    }
    if prop == "C11" {
        many(&mut w, &base, rng, ev)?;
    }
    *ev.counts.entry("addresses of name families".into()).or_insert(0) += kin.len() as u64;
    Ok(())
}

/// One position with many spenders, one owner with many operators: each grant holds by itself.
fn many(w: &mut World, base: &str, rng: &mut Rng, ev: &mut Ev) -> V {
    let n = rng.range(2, 40);
    let mut given: Vec<(String, bool)> = vec![];
    for _ in 0..n {
        let who = addr(rng);
        let all = rng.chance(1, 3);
        let m = if all {
            ExecuteMsg::ApproveAll { operator: Addr::unchecked(&who), expires: None }
        } else {
            ExecuteMsg::Approve { spender: Addr::unchecked(&who), token_id: token_id(base, 1), expires: None }
        };
        if w.exec(base, &m, &[]).is_err() {
            return Err(format!("{} could not grant {} anything, having granted {} others", base, who, given.len()));
        }
        given.push((who, all));
    }
    let mut gone = vec![];
    for _ in 0..rng.below(4) {
        if given.len() < 2 {
            break;
        }
        let (who, all) = given.remove(rng.below(given.len() as u64) as usize);
        let m = if all {
            ExecuteMsg::RevokeAll { operator: Addr::unchecked(&who) }
        } else {
            ExecuteMsg::Revoke { spender: Addr::unchecked(&who), token_id: token_id(base, 1) }
        };
        if w.exec(base, &m, &[]).is_err() {
            return Err(format!("{} could not revoke what it granted {}", base, who));
        }
        gone.push(who);
    }
    let m = |to: &str| ExecuteMsg::TransferNft { recipient: Addr::unchecked(to), token_id: token_id(base, 1) };
    for (who, _) in &given {
        let mut f = w.clone();
        if let Err(e) = f.exec(who, &m(who), &[]) {
            return Err(format!("{} was granted a position of {}, along with {} others, but could not move it: {:?}", who, base, given.len() - 1, e));
        }
    }
    for who in &gone {
        let mut f = w.clone();
        if f.exec(who, &m(who), &[]).is_ok() {
            return Err(format!("{} moved a position of {} after its grant was revoked", who, base));
        }
    }
    *ev.counts.entry("grants held side by side".into()).or_insert(0) += given.len() as u64;
    Ok(())
}

/// An owner with more positions than two bytes can count.
pub fn deep(seed: u64, ev: &mut Ev) -> V {
    let sc = Scen::new(seed, crate::scen::Profile::Nft);
    let rng = &mut Rng::new(seed ^ 0xdee9);
    let Ok(s) = snap(&sc.w, &sc.known) else { return Ok(()) };
    let Some(k) = s.pools.keys().next().cloned() else { return Ok(()) };
    let mut w = sc.w.clone();
    let (me, other) = (addr(rng), addr(rng));
    let sp_ = k.3 as i32;
    let lo = refm::floor_align(rng.range(-3000, 3000) as i32, sp_);
    let hi = lo + sp_ * rng.range(1, 20) as i32;
    let mut list: Vec<u128> = vec![];
    let mut next = 1u128;
    let n = 65_536 + rng.below(40);
    for _ in 0..n {
        if let Err(e) = open(&mut w, &k, &me, lo, hi, next) {
            // what other owners did may fill the cap of a tick; nothing is claimed then
            let _ = e;
            return Ok(());
        }
        list.push(next);
        next += 1;
    }
    let at = |w: &World, i: usize| -> Result<u128, String> {
        let p: oraiswap_v3::Position = w.query(QueryMsg::Position { owner_id: Addr::unchecked(&me), index: i as u32 }).map_err(|e| format!("position {} of an owner with {} of them: {:?}", i, n, e))?;
        Ok(p.liquidity.0)
    };
    let mut gone = 0u32;
    for _ in 0..60 {
        let last = list.len() - 1;
        let i = match rng.below(4) {
            0 => rng.below(list.len() as u64) as usize,
            1 => last.saturating_sub(rng.below(30) as usize),
            2 => rng.below(30) as usize,
            _ => last,
        };
        if rng.chance(1, 3) {
            open(&mut w, &k, &me, lo, hi, next).map_err(|e| format!("owner of {} positions could not open another: {:?}", list.len(), e))?;
            list.push(next);
            next += 1;
        } else if rng.chance(1, 2) {
            w.exec(&me, &ExecuteMsg::RemovePosition { index: i as u32 }, &[]).map_err(|e| format!("owner of {} positions could not close {}: {:?}", list.len(), i, e))?;
            list.swap_remove(i);
        } else {
            w.exec(&me, &ExecuteMsg::TransferPosition { index: i as u32, receiver: other.clone() }, &[]).map_err(|e| format!("owner of {} positions could not transfer {}: {:?}", list.len(), i, e))?;
            let x = list.swap_remove(i);
            let p: oraiswap_v3::Position = w.query(QueryMsg::Position { owner_id: Addr::unchecked(&other), index: gone }).map_err(|e| format!("transferred position not found: {:?}", e))?;
            if p.liquidity.0 != x {
                return Err(format!("position of liquidity {} was transferred, the receiver got {}", x, p.liquidity.0));
            }
            gone += 1;
        }
        for j in [0, i.min(list.len() - 1), list.len() - 1] {
            let l = at(&w, j)?;
            if l != list[j] {
                return Err(format!("of {} positions, number {} should have liquidity {} but has {}", list.len(), j, list[j], l));
            }
        }
    }
    let c: u32 = w.query(QueryMsg::UserPositionAmount { owner: Addr::unchecked(&me) }).map_err(|e| format!("{:?}", e))?;
    if c as usize != list.len() {
        return Err(format!("{} positions are open, {} counted", list.len(), c));
    }
    for (j, want) in list.iter().enumerate() {
        let l = at(&w, j)?;
        if l != *want {
            return Err(format!("of {} positions, number {} should have liquidity {} but has {}", list.len(), j, want, l));
        }
    }
    ev.count("owners with more than 65536 positions");
    Ok(())
}
