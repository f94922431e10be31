//! Observation: the whole externally visible state, read through the contract's own queries.
use crate::chain::*;
use crate::refm::{self, PoolM};
use cosmwasm_std::{Addr, Binary};
use decimal::Decimal;
use oraiswap_v3::interface::{Approval, ApprovedForAllResponse, PoolWithPoolKey};
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::{FeeTier, Pool, PoolKey, Position, Tick};
use std::collections::{BTreeMap, BTreeSet};

pub type PK = (String, String, u64, u16);
pub fn pk(k: &PoolKey) -> PK {
    (k.token_x.clone(), k.token_y.clone(), k.fee_tier.fee.0, k.fee_tier.tick_spacing)
}
pub fn key(p: &PK) -> PoolKey {
    PoolKey { token_x: p.0.clone(), token_y: p.1.clone(), fee_tier: FeeTier { fee: Percentage(p.2), tick_spacing: p.3 } }
}
pub fn sp(x: u128) -> SqrtPrice {
    SqrtPrice::new(x)
}

#[derive(Clone, PartialEq, Debug)]
pub struct PoolSnap {
    pub pool: Pool,
    /// recorded ticks among all ticks ever mentioned for this pool
    pub ticks: BTreeMap<i32, Tick>,
    /// ticks flagged as initialised among the same set
    pub bits: BTreeSet<i32>,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Snap {
    pub admin: String,
    pub protocol_fee: u64,
    pub tiers: Vec<(u64, u16)>,
    pub pools: BTreeMap<PK, PoolSnap>,
    pub users: BTreeMap<String, Vec<Position>>,
    pub operators: BTreeMap<String, Vec<Approval>>,
}

pub struct Known {
    pub users: Vec<String>,
    pub ticks: BTreeMap<PK, BTreeSet<i32>>,
}

pub fn snap(w: &World, known: &Known) -> Result<Snap, String> {
    let e = |what: &str, k: ErrKind| format!("query {} failed: {:?}", what, k);
    let admin: Addr = w.query(QueryMsg::Admin {}).map_err(|x| e("admin", x))?;
    let pf: Percentage = w.query(QueryMsg::ProtocolFee {}).map_err(|x| e("protocol fee", x))?;
    let tiers: Vec<FeeTier> = w.query(QueryMsg::FeeTiers {}).map_err(|x| e("fee tiers", x))?;
    let mut s = Snap {
        admin: admin.to_string(),
        protocol_fee: pf.0,
        tiers: tiers.iter().map(|t| (t.fee.0, t.tick_spacing)).collect(),
        ..Default::default()
    };
    let mut start: Option<PoolKey> = None;
    loop {
        let page: Vec<PoolWithPoolKey> = w
            .query(QueryMsg::Pools { limit: Some(100), start_after: start.clone() })
            .map_err(|x| e("pools", x))?;
        let n = page.len();
        start = page.last().map(|p| p.pool_key.clone());
        for p in page {
            let k = pk(&p.pool_key);
            let mut ps = PoolSnap { pool: p.pool, ticks: BTreeMap::new(), bits: BTreeSet::new() };
            if let Some(ts) = known.ticks.get(&k) {
                for t in ts {
                    if let Ok(tick) = w.query::<Tick>(QueryMsg::Tick { key: p.pool_key.clone(), index: *t }) {
                        ps.ticks.insert(*t, norm(tick));
                    }
                    let b: bool = w
                        .query(QueryMsg::IsTickInitialized { key: p.pool_key.clone(), index: *t })
                        .map_err(|x| e("is tick initialised", x))?;
                    if b {
                        ps.bits.insert(*t);
                    }
                }
            }
            s.pools.insert(k, ps);
        }
        if n < 100 {
            break;
        }
    }
    for u in &known.users {
        let v = positions_of(w, u).map_err(|x| e("positions", x))?;
        s.users.insert(u.clone(), v);
        let mut ops: Vec<Approval> = vec![];
        loop {
            let o: ApprovedForAllResponse = w
                .query(QueryMsg::ApprovedForAll {
                    owner: Addr::unchecked(u.clone()),
                    include_expired: Some(true),
                    start_after: ops.last().map(|a| a.spender.clone()),
                    limit: Some(100),
                })
                .map_err(|x| e("operators", x))?;
            let n = o.operators.len();
            ops.extend(o.operators);
            if n < 100 || ops.len() > 5000 {
                break;
            }
        }
        s.operators.insert(u.clone(), ops);
    }
    Ok(s)
}

/// The sign of a zero change carries no meaning.
pub fn norm(mut t: Tick) -> Tick {
    if t.liquidity_change.0 == 0 {
        t.sign = true;
    }
    t
}

/// The owner's positions, one query per index.
pub fn positions_of(w: &World, u: &str) -> Result<Vec<Position>, ErrKind> {
    let n: u32 = w.query(QueryMsg::UserPositionAmount { owner: Addr::unchecked(u) })?;
    let mut v = vec![];
    for i in 0..n {
        v.push(w.query(QueryMsg::Position { owner_id: Addr::unchecked(u), index: i })?);
    }
    Ok(v)
}

pub fn token_id(owner: &str, index: u32) -> Binary {
    let mut v = owner.as_bytes().to_vec();
    v.extend_from_slice(&index.to_be_bytes());
    Binary(v)
}

impl Snap {
    pub fn model(&self, k: &PK) -> Option<PoolM> {
        let p = &self.pools.get(k)?.pool;
        let mut m = PoolM {
            price: p.sqrt_price.get(),
            tick: p.current_tick_index,
            spacing: k.3,
            fee: k.2,
            pos: vec![],
        };
        for v in self.users.values() {
            for q in v {
                if pk(&q.pool_key) == *k {
                    m.pos.push((q.lower_tick_index, q.upper_tick_index, q.liquidity.0));
                }
            }
        }
        Some(m)
    }
    pub fn npos(&self) -> usize {
        self.users.values().map(|v| v.len()).sum()
    }
}

/// All ticks flagged in the tick map, read with the tick map query.
pub fn all_bits(w: &World, k: &PK) -> Result<BTreeSet<i32>, ErrKind> {
    let s = k.3;
    let v: Vec<(u16, u64)> = w.query(QueryMsg::TickMap {
        pool_key: key(k),
        lower_tick_index: refm::min_tick(s),
        upper_tick_index: refm::max_tick(s),
        x_to_y: false,
    })?;
    let mut out = BTreeSet::new();
    for (c, bits) in v {
        for b in 0..64 {
            if bits >> b & 1 == 1 {
                out.insert((c as i32 * 64 + b - refm::MAX_TICK / s as i32) * s as i32);
            }
        }
    }
    Ok(out)
}
