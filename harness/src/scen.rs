//! Seeded scenarios: a world with users, tokens, tiers and pools, and a state-aware generator of
//! hostile and ordinary requests.
use crate::chain::*;
use crate::obs::*;
use crate::refm::{self, E18};
use crate::rng::Rng;
use crate::spec::*;
use cosmwasm_std::{Coin, Timestamp};
use cw20::Expiration;
use decimal::Decimal;
use oraiswap_v3::interface::SwapHop;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, NftExtensionMsg};
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::FeeTier;
use std::collections::{BTreeMap, BTreeSet};

pub const START: u128 = 30_000_000_000_000_000_000_000_000_000_000_000_000; // 3e37

#[derive(Clone, Debug)]
pub struct Step {
    pub sender: String,
    pub msg: ExecuteMsg,
    pub funds: Vec<Coin>,
    pub blocks: u64,
    pub ns: u64,
    pub fail: Option<String>,
    pub hook: Option<(String, String, ExecuteMsg, Vec<Coin>, bool)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    Amm,
    Nft,
    Admin,
    Mixed,
    Bulk,
}

pub struct Scen {
    pub w: World,
    pub known: Known,
    pub rng: Rng,
    pub users: Vec<String>,
    pub tokens: Vec<String>,
    pub tiers: Vec<(u64, u16)>,
    pub liq_bits: (u32, u32),
    pub wrap: bool,
    pub profile: Profile,
    pub max_pos: usize,
    pub hostile: bool,
    pub extra_coins: bool,
    /// swaps often go a long way
    pub long: bool,
    pub web: bool,
}

const NATIVES: [&str; 6] = ["uusdt", "orai", "ibc/a2e2eec9057a4a1c", "uusd", "factory/x/abc", "a"];
const CW20S: [&str; 5] = ["orai1tokena", "orai1tokenb", "orai1tokenab", "orai1zzz", "orai1aaa0"];
const FEES: [u64; 12] = [
    0, 1, 1_000_000, 100_000_000, 500_000_000, 3_000_000_000, 6_000_000_000, 10_000_000_000, 100_000_000_000,
    500_000_000_000, 990_000_000_000, 999_999_999_999,
];
const SPACINGS: [u16; 14] = [1, 1, 2, 3, 4, 5, 7, 10, 13, 20, 60, 64, 99, 100];

fn long_pair(rng: &mut Rng, head: &str, n: usize) -> (String, String) {
    let a: String = (0..n).map(|_| char::from(b"0123456789acdefghjklmnpqrstuvwxyz"[rng.below(33) as usize])).collect();
    let i = rng.below(n as u64) as usize;
    let mut z = a.clone().into_bytes();
    z[i] = if z[i] == b'z' { b'y' } else { b'z' };
    (format!("{}{}", head, a), format!("{}{}", head, String::from_utf8(z).unwrap()))
}

impl Scen {
    pub fn new(seed: u64, profile: Profile) -> Scen {
        let mut rng = Rng::new(seed);
        let pf = match rng.below(10) {
            0 => 0,
            1 => refm::ONE_PCT,
            2 => 1,
            3 => 999_999_999_999,
            4 => 500_000_000_000,
            5 => 10_000_000_000,
            _ => rng.below(300_000_000_000),
        };
        let mut w = World::new("orai1admin", pf);
        let mut users: Vec<String> = ["orai1alice", "orai1bob", "orai1bob1", "orai1carol"].iter().map(|s| s.to_string()).collect();
        if rng.chance(1, 3) {
            users.push("orai1bob11".into());
        }
        if rng.chance(1, 6) {
            // addresses of full length that differ in one character
            let (a, z) = long_pair(&mut rng, "orai1", 58);
            users.extend([a, z]);
        }
        users.push("orai1admin".into());
        if rng.chance(1, 25) {
            w.height = *rng.pick(&[0xffff_fff0, 0x1_0000_0010, 1 << 40]);
        }
        let mut tokens: Vec<String> = vec![];
        let nt = rng.range(2, 4);
        let mix = rng.below(4);
        // names whose concatenations coincide
        let names = |x: [&str; 4]| Some(x.map(|y| y.to_string()));
        let twins: Option<[String; 4]> = match rng.below(12) {
            0 | 1 => names(["orai1k", "orai1orai1z", "orai1korai1", "orai1z"]),
            2 | 3 if mix != 0 => names(["aura", "iusd", "aurai", "usd"]),
            // long names that differ in one character
            4 if mix != 0 => {
                let (a, z) = long_pair(&mut rng, "ibc/", 64);
                Some([a, "orai".into(), z, "orai".into()])
            }
            5 => {
                let (a, z) = long_pair(&mut rng, "orai1", 58);
                Some([a, "orai1zzzzz".into(), z, "orai1zzzzz".into()])
            }
            _ => None,
        };
        if let Some(t) = &twins {
            for x in t {
                if !tokens.contains(x) {
                    tokens.push(x.clone());
                }
            }
        }
        // names that differ only in the case of their letters
        if twins.is_none() && mix != 0 && rng.chance(1, 10) {
            tokens = ["usdc", "USDC"].iter().map(|x| x.to_string()).collect();
        }
        while tokens.len() < nt as usize {
            let t = match mix {
                0 => *rng.pick(&CW20S),
                1 => *rng.pick(&NATIVES),
                _ => if rng.chance(1, 2) { *rng.pick(&CW20S) } else { *rng.pick(&NATIVES) },
            };
            if !tokens.iter().any(|x| x == t) {
                tokens.push(t.into());
            }
        }
        for t in &tokens {
            for u in &users {
                w.set_balance(t, u, START);
            }
            w.set_balance(t, "orai1eve", START);
        }
        let mut tiers: Vec<(u64, u16)> = vec![];
        let many = rng.chance(1, if profile == Profile::Admin { 4 } else { 12 });
        let n = if many { rng.range(7, 20) } else { rng.range(1, 4) };
        while tiers.len() < n as usize {
            let fee = if rng.chance(3, 4) { { let nf = if rng.chance(1, 5) { 12 } else { 8 }; FEES[rng.below(nf) as usize] } } else { rng.below(20_000_000_000) };
            let sp = if rng.chance(3, 4) { *rng.pick(&SPACINGS) } else { rng.range(1, 100) as u16 };
            // tiers that differ in one component, or in a single bit of it
            let (fee, sp) = match tiers.last() {
                Some(&(f, s)) if rng.chance(2, 5) => match rng.below(3) {
                    0 => (f, sp),
                    1 => (fee, s),
                    _ => (f ^ (1 << rng.below(33)), s),
                },
                _ => (fee, sp),
            };
            let fee = fee.min(refm::ONE_PCT - 1);
            if !tiers.contains(&(fee, sp)) {
                tiers.push((fee, sp));
            }
        }
        // so little liquidity and so high a fee that the fee growth wraps around
        let wrap = matches!(profile, Profile::Amm | Profile::Mixed) && rng.chance(1, 12);
        if wrap {
            tiers.truncate(1);
            tiers[0].0 = refm::ONE_PCT - *rng.pick(&[1, 1, 1, 2, 3, 5, 10, 30]);
        }
        let liq_bits = match rng.below(8) {
            _ if wrap => (30, 60),
            0 => (0, 22),
            1 => (20, 45),
            2 | 3 => (35, 65),
            4 => (60, 90),
            5 => (85, 104),
            6 => (0, 60),
            _ => (20, 80),
        };
        let mut known_users = users.clone();
        known_users.push("orai1eve".into());
        known_users.push("orai1nftrecv".into());
        let max_pos = match rng.below(6) {
            0 => 3,
            1 => 6,
            5 => 20,
            _ => 12,
        };
        let mut s = Scen {
            w,
            known: Known { users: known_users, ticks: BTreeMap::new() },
            rng,
            users,
            tokens,
            tiers: tiers.clone(),
            liq_bits,
            profile,
            max_pos,
            hostile: false, extra_coins: false,
            long: false,
            web: false,
            wrap,
        };
        if wrap {
            s.max_pos = 5;
        }
        if profile == Profile::Admin {
            // registry scenarios build everything through generated requests
            if s.rng.chance(1, 2) {
                return s;
            }
        }
        for t in &tiers {
            let _ = s.w.exec("orai1admin", &ExecuteMsg::AddFeeTier { fee_tier: tier(*t) }, &[]);
        }
        let np = if profile == Profile::Bulk { 2 } else if s.rng.chance(1, 10) { s.rng.range(5, 8) } else { s.rng.range(1, 4) };
        for _ in 0..np {
            let m = s.gen_create_pool(false);
            let _ = s.w.exec("orai1admin", &m, &[]);
        }
        if let Some(t) = &twins {
            // the two look-alike pairs with the same tier at the same price
            if let ExecuteMsg::CreatePool { fee_tier, init_sqrt_price, init_tick, .. } = s.gen_create_pool(false) {
                for (a, z) in [(0, 1), (2, 3)] {
                    let m = ExecuteMsg::CreatePool { token_0: t[a].clone(), token_1: t[z].clone(), fee_tier, init_sqrt_price, init_tick };
                    let _ = s.w.exec("orai1admin", &m, &[]);
                }
            }
        }
        if matches!(profile, Profile::Amm | Profile::Mixed) && s.rng.chance(1, 14) {
            s.ladder();
        } else if matches!(profile, Profile::Amm | Profile::Mixed) && !wrap && s.rng.chance(1, 14) {
            s.web();
        }
        s
    }

    /// Many adjacent small ranges, so that a single swap passes many boundaries.
    fn ladder(&mut self) {
        let sn = match snap(&self.w, &self.known) {
            Ok(s) => s,
            Err(_) => return,
        };
        let k = match self.pick_pool(&sn) {
            Some(k) => k,
            None => return,
        };
        let sp_ = k.3 as i32;
        let cur = refm::floor_align(sn.pools[&k].pool.current_tick_index, sp_);
        let big = self.rng.chance(1, 8);
        let n = if big { self.rng.range(60, 160) } else { self.rng.range(18, 44) } as i32;
        // side by side, or one inside the other
        let nested = big && self.rng.chance(1, 2);
        let w = self.rng.range(1, 3) as i32;
        let gap = self.rng.below(2) as i32;
        let l = self.rng.mag(self.liq_bits.0.max(20), self.liq_bits.1.min(80).max(30));
        for i in 0..n {
            let (lo, hi) = if nested {
                (cur - i * w * sp_, cur + (i * w + 1) * sp_)
            } else {
                let lo = cur + (i - n / 2) * (w + gap) * sp_;
                (lo, lo + w * sp_)
            };
            if !refm::valid_tick(lo, k.3) || !refm::valid_tick(hi, k.3) {
                continue;
            }
            let who = self.user();
            let m = ExecuteMsg::CreatePosition {
                pool_key: key(&k),
                lower_tick: lo,
                upper_tick: hi,
                liquidity_delta: Liquidity(l + self.rng.below(1000) as u128),
                slippage_limit_lower: sp(0),
                slippage_limit_upper: sp(u128::MAX),
            };
            let mut st = Step { sender: who, msg: m, funds: vec![], blocks: 0, ns: 0, fail: None, hook: None };
            if let Ok(e) = spec(&sn, Block::of(&self.w), &st.sender, &st.msg) {
                st.funds = native_due(&e).iter().filter(|x| *x.1 > 0).map(|(d, a)| coin(d, *a)).collect();
            }
            if self.w.exec(&st.sender, &st.msg, &st.funds).is_ok() {
                self.known.ticks.entry(k.clone()).or_default().extend([lo, hi]);
            }
        }
        self.max_pos = 4;
        self.long = true;
    }

    /// Many pools with wide positions, so that long routes go through.
    fn web(&mut self) {
        let n = self.rng.range(4, 9);
        for _ in 0..n {
            if let ExecuteMsg::CreatePool { token_0, token_1, fee_tier, .. } = self.gen_create_pool(false) {
                let t = refm::floor_align(self.rng.range(-3000, 3000) as i32, fee_tier.tick_spacing as i32);
                let m = ExecuteMsg::CreatePool { token_0, token_1, fee_tier, init_sqrt_price: sp(refm::price(t)), init_tick: t };
                let _ = self.w.exec("orai1admin", &m, &[]);
            }
        }
        let sn = match snap(&self.w, &self.known) {
            Ok(s) => s,
            Err(_) => return,
        };
        let bits = self.rng.range(50, 80) as u32;
        for (k, p) in &sn.pools {
            let s_ = k.3 as i32;
            let cur = refm::floor_align(p.pool.current_tick_index, s_);
            let w = s_ * self.rng.range(5, 4000 / s_ as i64 + 10) as i32;
            let (lo, hi) = (cur - w, cur + w);
            if !refm::valid_tick(lo, k.3) || !refm::valid_tick(hi, k.3) {
                continue;
            }
            let m = ExecuteMsg::CreatePosition {
                pool_key: key(k),
                lower_tick: lo,
                upper_tick: hi,
                liquidity_delta: Liquidity(self.rng.mag(bits, bits + 6)),
                slippage_limit_lower: sp(0),
                slippage_limit_upper: sp(u128::MAX),
            };
            let who = self.user();
            if let Ok(e) = spec(&sn, Block::of(&self.w), &who, &m) {
                let funds: Vec<_> = native_due(&e).iter().filter(|x| *x.1 > 0).map(|(d, a)| coin(d, *a)).collect();
                if self.w.exec(&who, &m, &funds).is_ok() {
                    self.known.ticks.entry(k.clone()).or_default().extend([lo, hi]);
                }
            }
        }
        self.max_pos += sn.pools.len();
        self.web = true;
    }

    fn user(&mut self) -> String {
        let i = self.rng.below(self.users.len() as u64) as usize;
        self.users[i].clone()
    }

    pub fn gen_create_pool(&mut self, wild: bool) -> ExecuteMsg {
        let r = &mut self.rng;
        let t = *r.pick(&self.tiers);
        let (a, z) = loop {
            let a = r.pick(&self.tokens).clone();
            let z = r.pick(&self.tokens).clone();
            if a != z || (wild && r.chance(1, 4)) {
                break (a, z);
            }
        };
        let s = t.1 as i32;
        let raw = match r.below(12) {
            _ if self.wrap => r.range(-20_000, 20_000) as i32,
            0 => r.range(-221_818, 221_818) as i32,
            1 => r.range(190_000, 221_818) as i32,
            2 => r.range(-221_818, -190_000) as i32,
            3 => refm::max_tick(t.1) - s * r.range(0, 3) as i32,
            4 => refm::min_tick(t.1) + s * r.range(0, 3) as i32,
            5 => r.range(-50_000, 50_000) as i32,
            6 => 0,
            7 => {
                // right at a word boundary of the tick map
                let q = refm::MAX_TICK / s;
                let c = r.range(1, (2 * q / 64) as i64) as i32;
                (c * 64 - q) * s
            }
            _ => r.range(-3000, 3000) as i32,
        };
        let mut tick = refm::floor_align(raw.clamp(-refm::MAX_TICK, refm::MAX_TICK), s);
        tick = tick.clamp(refm::min_tick(t.1), refm::max_tick(t.1));
        let lo = refm::price(tick);
        let price = if tick + s > refm::MAX_TICK {
            lo
        } else {
            let hi = refm::price(tick + s);
            match r.below(5) {
                0 => hi - 1,
                1 => lo + 1,
                2 => lo + r.below128(hi - lo),
                _ => lo,
            }
        };
        let mut m = (a, z, t, price, tick);
        if wild {
            match r.below(8) {
                0 => m.2 = (t.0 + 1, t.1),
                1 => m.3 = if tick + s <= refm::MAX_TICK { refm::price(tick + s) } else { lo.wrapping_add(1) },
                2 => m.3 = lo.saturating_sub(1),
                3 => m.4 = tick + 1,
                4 => m.4 = tick + s,
                5 => m.4 = r.range(-230_000, 230_000) as i32,
                _ => {}
            }
        }
        ExecuteMsg::CreatePool { token_0: m.0, token_1: m.1, fee_tier: tier(m.2), init_sqrt_price: sp(m.3), init_tick: m.4 }
    }

    pub fn pick_pool(&mut self, s: &Snap) -> Option<PK> {
        let v: Vec<&PK> = s.pools.keys().collect();
        if v.is_empty() {
            return None;
        }
        // prefer pools with positions
        let mut k = (*self.rng.pick(&v)).clone();
        if self.rng.chance(4, 5) {
            let live: Vec<&PK> = v.iter().copied().filter(|k| s.users.values().flatten().any(|q| pk(&q.pool_key) == **k)).collect();
            if !live.is_empty() {
                k = (*self.rng.pick(&live)).clone();
            }
        }
        Some(k)
    }

    pub fn gen_range(&mut self, s: &Snap, k: &PK) -> (i32, i32) {
        let sp = k.3 as i32;
        let (mn, mx) = (refm::min_tick(k.3), refm::max_tick(k.3));
        let p = &s.pools[k].pool;
        let cur = refm::floor_align(p.current_tick_index, sp);
        let m = s.model(k).unwrap();
        let ticks: Vec<i32> = m.ticks().keys().copied().collect();
        let r = &mut self.rng;
        let one = |r: &mut Rng, below: bool| -> i32 {
            let d = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => r.range(0, 4),
                3 => r.range(1, 70),
                4 => 64 * r.range(0, 5),
                5 => r.range(200, 600),
                _ => r.range(0, 20),
            } as i32;
            if below { cur - d * sp } else { cur + d * sp }
        };
        let mut lo;
        let mut hi;
        match r.below(if self.wrap { 6 } else { 16 }) {
            0 => {
                lo = mn;
                hi = mx;
            }
            1 => {
                lo = mn + sp * r.range(0, 2) as i32;
                hi = one(r, false);
            }
            2 => {
                lo = one(r, true);
                hi = mx - sp * r.range(0, 2) as i32;
            }
            3 | 4 => {
                // above the price
                lo = one(r, false);
                hi = lo + sp * r.range(1, 40) as i32;
            }
            5 | 6 => {
                hi = one(r, true);
                lo = hi - sp * r.range(1, 40) as i32;
            }
            7 => {
                lo = cur;
                hi = cur + sp;
            }
            8 => {
                lo = cur - sp;
                hi = cur;
            }
            9 => {
                lo = cur + sp;
                hi = lo + sp * r.range(1, 3) as i32;
            }
            _ => {
                lo = one(r, true);
                hi = one(r, false);
            }
        }
        if r.chance(1, 8) {
            // at the first or last bit of a word of the tick map
            let q = refm::MAX_TICK / sp;
            let f = |t: i32, d: i32| refm::floor_align(t / sp + q, 64) + d;
            if r.chance(1, 2) {
                lo = (f(lo, -(r.below(2) as i32)) - q) * sp;
            } else {
                hi = (f(hi, 64 - r.below(2) as i32) - q) * sp;
            }
        }
        if !ticks.is_empty() && r.chance(1, 10) {
            // exactly one search window away from another boundary
            let d = 256 * sp + sp * (r.range(-1, 1) as i32) * (r.below(3) / 2) as i32;
            if r.chance(1, 2) {
                lo = *r.pick(&ticks);
                hi = lo + d;
            } else {
                hi = *r.pick(&ticks);
                lo = hi - d;
            }
        }
        if !ticks.is_empty() && r.chance(2, 5) {
            let t = *r.pick(&ticks);
            match r.below(3) {
                0 => lo = t,
                1 => hi = t,
                _ => {
                    lo = t;
                    hi = *r.pick(&ticks);
                }
            }
        }
        if lo > hi {
            std::mem::swap(&mut lo, &mut hi);
        }
        lo = lo.clamp(mn, mx);
        hi = hi.clamp(mn, mx);
        if lo == hi {
            if hi + sp <= mx {
                hi += sp
            } else {
                lo -= sp
            }
        }
        (lo, hi)
    }

    pub fn gen_liq(&mut self, k: &PK) -> u128 {
        let (a, z) = self.liq_bits;
        let l = match self.rng.below(20) {
            0 => self.rng.mag(0, 10),
            1 => refm::max_liq_per_tick(k.3) / (1 + self.rng.below(4) as u128) - 1,
            2 => 1,
            3 => 1_000_000 * self.rng.mag(0, 40),
            _ => self.rng.mag(a, z),
        };
        l.max(1)
    }

    pub fn gen_create(&mut self, s: &Snap, wild: bool) -> Option<ExecuteMsg> {
        let k = self.pick_pool(s)?;
        let (mut lo, mut hi) = self.gen_range(s, &k);
        let mut l = self.gen_liq(&k);
        let price = s.pools[&k].pool.sqrt_price.get();
        let r = &mut self.rng;
        let mut sl = match r.below(12) {
            0 => (price, price),
            1 => (price - 1, price),
            2 => (price, price + 1),
            3 => (price / 2, price.saturating_mul(2)),
            4 => (price + 1, u128::MAX),
            5 => (0, price - 1),
            // bounds that exclude everything
            6 if r.chance(1, 2) => (price + r.below(2) as u128, price - 1 - r.below(2) as u128),
            // values that could be taken to mean "no bound"
            6 => *r.pick(&[(0, 0), (price, 0), (price - 1, 0), (u128::MAX, u128::MAX), (u128::MAX, 0), (refm::MAX_P, refm::MAX_P), (0, refm::MIN_P), (price, u128::MAX), (0, 1)]),
            _ => (0, u128::MAX),
        };
        let mut kk = k.clone();
        if wild {
            match r.below(12) {
                0 => lo += 1,
                1 => hi -= 1,
                2 => std::mem::swap(&mut lo, &mut hi),
                3 => hi = lo,
                4 => lo = refm::min_tick(k.3) - k.3 as i32,
                5 => hi = refm::max_tick(k.3) + k.3 as i32,
                6 => l = 0,
                7 => l = refm::max_liq_per_tick(k.3) + r.below(3) as u128 - 1,
                8 => kk = (k.1.clone(), k.0.clone(), k.2, k.3),
                9 => kk.2 += 1,
                10 => l = u128::MAX - r.below(3) as u128,
                _ => {
                    lo = r.range(-230_000, 230_000) as i32;
                    hi = r.range(-230_000, 230_000) as i32;
                }
            }
            if r.chance(2, 3) {
                sl = (0, u128::MAX);
            }
        }
        if refm::valid_tick(lo, k.3) && refm::valid_tick(hi, k.3) {
            self.known.ticks.entry(kk.clone()).or_default().extend([lo, hi]);
        }
        let r = &mut self.rng;
        let pool_key = key(&kk);
        Some(if r.chance(1, 8) {
            ExecuteMsg::Mint {
                extension: NftExtensionMsg {
                    pool_key,
                    lower_tick: lo,
                    upper_tick: hi,
                    liquidity_delta: Liquidity(l),
                    slippage_limit_lower: sp(sl.0),
                    slippage_limit_upper: sp(sl.1),
                },
            }
        } else {
            ExecuteMsg::CreatePosition {
                pool_key,
                lower_tick: lo,
                upper_tick: hi,
                liquidity_delta: Liquidity(l),
                slippage_limit_lower: sp(sl.0),
                slippage_limit_upper: sp(sl.1),
            }
        })
    }

    pub fn gen_swap_on(&mut self, s: &Snap, k: &PK) -> ExecuteMsg {
        self.gen_swap_dir(s, k, None, None)
    }

    /// Mostly requests the pool can serve; the rest keep whatever was drawn.
    pub fn gen_swap_dir(&mut self, s: &Snap, k: &PK, dir: Option<bool>, by_in: Option<bool>) -> ExecuteMsg {
        let m = s.model(k).unwrap();
        let keep_any = self.rng.chance(1, 5);
        let mut last = self.gen_swap_once(s, k, dir, by_in);
        for _ in 0..6 {
            if keep_any {
                break;
            }
            let ok = match &last {
                ExecuteMsg::Swap { x_to_y, amount, by_amount_in, sqrt_price_limit, .. } => {
                    m.swap(*x_to_y, amount.0, *by_amount_in, sqrt_price_limit.get(), s.protocol_fee).is_ok()
                }
                _ => true,
            };
            if ok {
                break;
            }
            last = self.gen_swap_once(s, k, dir, by_in);
        }
        last
    }

    fn gen_swap_once(&mut self, s: &Snap, k: &PK, dir: Option<bool>, by: Option<bool>) -> ExecuteMsg {
        let m = s.model(k).unwrap();
        let r = &mut self.rng;
        let xy = dir.unwrap_or(r.chance(1, 2));
        let by_in = by.unwrap_or(r.chance(3, 5));
        let mut limit = if xy { refm::MIN_P } else { refm::MAX_P };
        let ticks: Vec<i32> = m.ticks().keys().copied().filter(|t| if xy { refm::price(*t) <= m.price } else { refm::price(*t) >= m.price }).collect();
        let active = m.active(m.tick);
        let l = crate::big::to128(active).unwrap_or(0);
        let mut amount = match r.below(10) {
            1..=7 if self.wrap && by_in && l > 0 => l.saturating_mul(1 + r.below(34_000) as u128).min(START),
            0 => r.mag(0, 8),
            1 => r.mag(0, 110),
            2..=4 if l > 0 => {
                // a fraction of the virtual reserve at the current price
                let lx = crate::big::b(l) * crate::big::b(E18) / crate::big::b(m.price);
                let ly = crate::big::b(l) * crate::big::b(m.price) / crate::big::p10(30);
                let res = crate::big::to128(if xy == by_in { lx } else { ly }).unwrap_or(START);
                res.min(START) >> r.below(14)
            }
            _ => r.mag(self.liq_bits.0.saturating_sub(25), self.liq_bits.1.saturating_sub(8).max(8)),
        };
        let targeted = !ticks.is_empty() && r.chance(2, if self.wrap { 16 } else { 5 });
        if targeted {
            // near ticks more often than far ones
            let far = if self.long { ticks.len() as u64 } else { 4 };
            let d = r.below(ticks.len() as u64).min(r.below(far)) as usize;
            let mut t = if xy { ticks[ticks.len() - 1 - d] } else { ticks[d] };
            if r.chance(1, 12) {
                // the last tick of the range, or the one before it
                let back = r.below(2) as i32 * k.3 as i32;
                t = if xy { refm::min_tick(k.3) + back } else { refm::max_tick(k.3) - back };
            }
            let stop = refm::price(t);
            if let Some((i, o, f)) = m.path(xy, stop) {
                let exact = if by_in {
                    match r.below(3) {
                        0 => i,
                        // the gross amount whose net part is just (not) enough
                        1 if m.fee < refm::ONE_PCT => crate::big::to128(crate::big::b(i - f) * crate::big::b(refm::ONE_PCT as u128) / crate::big::b((refm::ONE_PCT - m.fee) as u128)).unwrap_or(i),
                        _ => i,
                    }
                } else {
                    o
                };
                amount = match r.below(8) {
                    0 => exact.saturating_add(1),
                    1 => exact.saturating_sub(1),
                    2 => exact.saturating_add(2),
                    3 => exact.saturating_add(exact / 50 + 1),
                    4 => exact.saturating_mul(2),
                    _ => exact,
                };
            }
            if r.chance(1, 3) {
                limit = match r.below(4) {
                    0 => stop.saturating_add(1),
                    1 => stop - 1,
                    _ => stop,
                };
            }
        } else if r.chance(1, 5) {
            limit = match r.below(12) {
                // values that could be taken to mean "no limit"
                9..=11 => *r.pick(&[0, 1, u128::MAX, u128::MAX - 1, refm::MIN_P, refm::MAX_P]),
                // on the wrong side, by anything up to the whole range
                7 => if xy { refm::MAX_P } else { refm::MIN_P },
                8 => {
                    let d = m.price >> r.below(12);
                    if xy { (m.price + d).min(refm::MAX_P) } else { (m.price - d).max(refm::MIN_P) }
                }
                0 => m.price,
                1 => if xy { m.price - 1 } else { m.price + 1 },
                2 => if xy { m.price + 1 } else { m.price - 1 },
                3 => if xy { m.price - m.price / 1000 } else { m.price + m.price / 1000 },
                4 => if xy { 0 } else { u128::MAX },
                5 => if xy { refm::MAX_P + 1 } else { refm::MIN_P - 1 },
                _ => {
                    let t = refm::floor_align(m.tick, k.3 as i32) + k.3 as i32 * r.range(-5, 5) as i32;
                    refm::price(t.clamp(-refm::MAX_TICK, refm::MAX_TICK))
                }
            };
            // a limit with an amount that would reach it exactly
            if r.chance(1, 3) && (refm::MIN_P..=refm::MAX_P).contains(&limit) {
                if let Some((i, o, _)) = m.path(xy, limit) {
                    amount = if by_in { i } else { o };
                }
            }
        }
        if r.chance(1, 60) {
            amount = 0;
        }
        if r.chance(1, 80) {
            amount = u128::MAX - r.below(4) as u128;
        }
        let mut kk = k.clone();
        if r.chance(1, 80) {
            kk = (k.1.clone(), k.0.clone(), k.2, k.3);
        }
        ExecuteMsg::Swap { pool_key: key(&kk), x_to_y: xy, amount: TokenAmount(amount), by_amount_in: by_in, sqrt_price_limit: sp(limit) }
    }

    fn gen_route(&mut self, s: &Snap) -> Option<ExecuteMsg> {
        let pools: Vec<PK> = s.pools.keys().cloned().collect();
        if pools.is_empty() {
            return None;
        }
        let n = if self.rng.chance(if self.web { 2 } else { 1 }, 3) { self.rng.range(4, 7) } else { self.rng.range(1, 4) } as usize;
        let mut swaps = vec![];
        let first = self.pick_pool(s)?;
        let mut tok = if self.rng.chance(1, 2) { first.0.clone() } else { first.1.clone() };
        let mut seen: BTreeSet<PK> = BTreeSet::new();
        for i in 0..n {
            let cand: Vec<&PK> = pools.iter().filter(|p| (p.0 == tok || p.1 == tok) && (i > 0 || **p == first)).collect();
            if cand.is_empty() {
                break;
            }
            let fresh: Vec<&PK> = cand.iter().filter(|p| !seen.contains(**p)).cloned().collect();
            let p = (*if fresh.is_empty() || self.rng.chance(1, 5) { *self.rng.pick(&cand) } else { *self.rng.pick(&fresh) }).clone();
            if seen.contains(&p) && self.rng.chance(3, 4) {
                break;
            }
            seen.insert(p.clone());
            let xy = p.0 == tok;
            tok = if xy { p.1.clone() } else { p.0.clone() };
            swaps.push(SwapHop { pool_key: key(&p), x_to_y: xy });
        }
        if swaps.is_empty() {
            return None;
        }
        let dir = swaps[0].x_to_y;
        let mut amount = 0;
        let mut out = 0;
        for _ in 0..4 {
            amount = match self.gen_swap_dir(s, &first, Some(dir), Some(true)) {
                ExecuteMsg::Swap { amount, .. } => amount.0.min(START / 4),
                _ => 1000,
            };
            // what it should give
            let probe = ExecuteMsg::SwapRoute {
                amount_in: TokenAmount(amount),
                expected_amount_out: TokenAmount(0),
                slippage: Percentage(0),
                swaps: swaps.clone(),
            };
            match spec(s, Block { height: 1, nanos: 1 }, "orai1x", &probe) {
                Ok(e) => {
                    out = e.attrs.iter().find(|a| a.0 == "amount_out").and_then(|a| a.1.parse::<u128>().ok()).unwrap_or(0);
                    break;
                }
                Err(_) => {}
            }
        }
        let r = &mut self.rng;
        let sl = match r.below(5) {
            0 => 0,
            1 => refm::ONE_PCT,
            2 => 10_000_000_000,
            _ => r.below(refm::ONE_PCT),
        };
        let exp = match r.below(6) {
            0 => out,
            1 => out.saturating_add(1),
            2 => {
                // the largest expectation that still passes, and one more
                let d = (refm::ONE_PCT - sl) as u128;
                if d == 0 { u128::MAX } else { crate::big::to128(crate::big::b(out) * crate::big::b(refm::ONE_PCT as u128) / crate::big::b(d)).unwrap_or(out).saturating_add(r.below(3) as u128) }
            }
            3 => out.saturating_sub(1),
            4 => 0,
            _ => out / 2 + r.below128(out.max(1)),
        };
        Some(ExecuteMsg::SwapRoute { amount_in: TokenAmount(amount), expected_amount_out: TokenAmount(exp), slippage: Percentage(sl), swaps })
    }

    fn some_position(&mut self, s: &Snap) -> Option<(String, u32)> {
        let v: Vec<(String, u32)> = s.users.iter().flat_map(|(u, v)| (0..v.len() as u32).map(move |i| (u.clone(), i))).collect();
        if v.is_empty() {
            return None;
        }
        Some(self.rng.pick(&v).clone())
    }

    fn gen_exp(&mut self) -> Option<Expiration> {
        let (h, t) = (self.w.height, self.w.time_ns);
        let r = &mut self.rng;
        match r.below(9) {
            0 => None,
            1 => Some(Expiration::Never {}),
            2 => Some(Expiration::AtHeight(h)),
            3 => Some(Expiration::AtHeight(h + 1)),
            4 => Some(Expiration::AtHeight(h + r.below(6))),
            5 => Some(Expiration::AtTime(Timestamp::from_nanos(t))),
            6 => Some(Expiration::AtTime(Timestamp::from_nanos(t + 1))),
            7 => Some(Expiration::AtTime(Timestamp::from_nanos(t + 1_000_000 * r.below(20_000)))),
            _ => Some(Expiration::AtHeight(h + r.below(40))),
        }
    }

    /// The next request, given the observed state.
    pub fn next(&mut self, s: &Snap) -> Step {
        //             cr sw ro rm cl tp tn sn bu ap rv aa ra wp ca cp cf pl at rt wc
        let mut wts: [u32; 21] = match self.profile {
            Profile::Amm => [26, 46, 6, 8, 7, 2, 1, 0, 1, 1, 0, 1, 0, 2, 1, 2, 1, 2, 1, 1, 3],
            Profile::Nft => [22, 5, 0, 5, 3, 9, 9, 3, 9, 16, 6, 8, 4, 0, 0, 0, 0, 1, 0, 0, 1],
            Profile::Admin => [6, 14, 0, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 8, 6, 8, 8, 20, 14, 8, 2],
            Profile::Mixed => [22, 26, 5, 8, 7, 4, 3, 2, 4, 5, 2, 4, 2, 4, 2, 3, 2, 4, 2, 2, 4],
            Profile::Bulk => [60, 10, 1, 4, 2, 2, 2, 0, 1, 3, 1, 10, 2, 0, 0, 0, 0, 6, 2, 1, 1],
        };
        if s.npos() >= self.max_pos && self.profile != Profile::Bulk {
            wts[0] /= 8;
            wts[3] += 4;
        }
        if s.npos() == 0 {
            wts[0] += 60;
        }
        if self.web {
            wts[2] += 60;
        }
        let sender = self.user();
        let mut step = Step { sender, msg: ExecuteMsg::RevokeAll { operator: addr("orai1x") }, funds: vec![], blocks: 0, ns: 0, fail: None, hook: None };
        if self.rng.chance(1, 2) {
            step.blocks = self.rng.below(3);
            step.ns = match self.rng.below(4) {
                0 => 1_000_000,
                1 => self.rng.below(7_000_000_000),
                2 => 5_000_000_000,
                // a dormant contract
                3 if self.rng.chance(1, 12) => self.rng.below(100_000_000_000_000_000),
                _ => 0,
            };
        }
        for _ in 0..8 {
            let kind = self.rng.weighted(&wts);
            let known: Vec<String> = self.known.users.clone();
            let m: Option<ExecuteMsg> = match kind {
                0 => self.gen_create(s, false),
                1 => self.pick_pool(s).map(|k| self.gen_swap_on(s, &k)),
                2 => self.gen_route(s),
                3 => self.some_position(s).map(|(u, i)| {
                    if self.rng.chance(9, 10) {
                        step.sender = u;
                    }
                    ExecuteMsg::RemovePosition { index: if self.rng.chance(1, 25) { i + self.rng.below(3) as u32 } else { i } }
                }),
                4 => self.some_position(s).map(|(u, i)| {
                    if self.rng.chance(9, 10) {
                        step.sender = u;
                    }
                    ExecuteMsg::ClaimFee { index: if self.rng.chance(1, 25) { i + self.rng.below(3) as u32 } else { i } }
                }),
                5 => self.some_position(s).map(|(u, i)| {
                    if self.rng.chance(9, 10) {
                        step.sender = u;
                    }
                    let receiver = if self.rng.chance(1, 20) { "Bad Address".to_string() } else { self.rng.pick(&known).clone() };
                    ExecuteMsg::TransferPosition { index: if self.rng.chance(1, 20) { i + 1 } else { i }, receiver }
                }),
                6 | 7 | 8 | 9 | 10 => self.some_position(s).map(|(u, i)| {
                    // owner, approved spender, operator or a stranger
                    let q = &s.users[&u][i as usize];
                    step.sender = match self.rng.below(6) {
                        0 | 1 => u.clone(),
                        2 | 3 if !q.approvals.is_empty() => self.rng.pick(&q.approvals).spender.to_string(),
                        4 if !s.operators.get(&u).map_or(true, |v| v.is_empty()) => self.rng.pick(&s.operators[&u]).spender.to_string(),
                        _ => self.rng.pick(&known).clone(),
                    };
                    let mut i = i;
                    if self.rng.chance(1, 20) {
                        i += self.rng.below(3) as u32;
                    }
                    let id = if self.rng.chance(1, 60) { cosmwasm_std::Binary(vec![1, 2]) } else { token_id(&u, i) };
                    let who = self.rng.pick(&known).clone();
                    match kind {
                        6 => ExecuteMsg::TransferNft { recipient: addr(&who), token_id: id },
                        7 => {
                            let r = &mut self.rng;
                            let msg = match r.below(4) {
                                0 => None,
                                1 => Some(cosmwasm_std::Binary(vec![])),
                                2 => Some(cosmwasm_std::Binary(br#"{"stake":{}}"#.to_vec())),
                                _ => Some(cosmwasm_std::Binary((0..r.below(40)).map(|_| r.below(256) as u8).collect())),
                            };
                            ExecuteMsg::SendNft { contract: addr("orai1nftrecv"), token_id: id, msg }
                        }
                        8 => ExecuteMsg::Burn { token_id: id },
                        9 => {
                            let expires = self.gen_exp();
                            ExecuteMsg::Approve { spender: addr(&who), token_id: id, expires }
                        }
                        _ => {
                            let sp = if !q.approvals.is_empty() && self.rng.chance(3, 4) { self.rng.pick(&q.approvals).spender.to_string() } else { who };
                            ExecuteMsg::Revoke { spender: addr(&sp), token_id: id }
                        }
                    }
                }),
                11 => {
                    let mut who = self.rng.pick(&known).clone();
                    if self.profile == Profile::Bulk {
                        who = format!("orai1op{}", self.rng.below(400));
                        step.sender = "orai1alice".into();
                    }
                    let expires = self.gen_exp();
                    Some(ExecuteMsg::ApproveAll { operator: addr(&who), expires })
                }
                12 => {
                    let v = s.operators.get(&step.sender).cloned().unwrap_or_default();
                    let who = if !v.is_empty() && self.rng.chance(3, 4) { self.rng.pick(&v).spender.to_string() } else { self.rng.pick(&known).clone() };
                    Some(ExecuteMsg::RevokeAll { operator: addr(&who) })
                }
                13 => self.pick_pool(s).map(|k| {
                    if self.rng.chance(3, 4) {
                        step.sender = s.pools[&k].pool.fee_receiver.clone();
                    }
                    ExecuteMsg::WithdrawProtocolFee { pool_key: key(&k) }
                }),
                14 | 15 | 16 | 18 | 19 => {
                    if self.rng.chance(3, 4) {
                        step.sender = s.admin.clone();
                    }
                    match kind {
                        14 => {
                            let who = self.user();
                            Some(ExecuteMsg::ChangeAdmin { new_admin: addr(&who) })
                        }
                        15 => {
                            let v = match self.rng.below(6) {
                                0 => 0,
                                1 => refm::ONE_PCT,
                                2 => 1,
                                _ => self.rng.below(refm::ONE_PCT),
                            };
                            Some(ExecuteMsg::ChangeProtocolFee { protocol_fee: Percentage(v) })
                        }
                        16 => self.pick_pool(s).map(|k| {
                            let who = self.user();
                            let mut kk = k;
                            if self.rng.chance(1, 15) {
                                kk.2 += 1;
                            }
                            ExecuteMsg::ChangeFeeReceiver { pool_key: key(&kk), fee_receiver: addr(&who) }
                        }),
                        18 => {
                            let t = match self.rng.below(8) {
                                0 => (self.rng.below(refm::ONE_PCT), 0),
                                1 => (self.rng.below(refm::ONE_PCT), 101),
                                2 => (refm::ONE_PCT + self.rng.below(2), 10),
                                3 => (refm::ONE_PCT - 1, 100),
                                4 if !s.tiers.is_empty() => *self.rng.pick(&s.tiers),
                                5 => (self.rng.below(refm::ONE_PCT), self.rng.range(1, 100) as u16),
                                _ => *self.rng.pick(&self.tiers),
                            };
                            if t.1 > 0 && t.1 <= 100 && t.0 < refm::ONE_PCT && self.tiers.len() < 24 && (self.tiers.len() < 6 || self.rng.chance(1, 3)) && !self.tiers.contains(&t) {
                                self.tiers.push(t);
                            }
                            Some(ExecuteMsg::AddFeeTier { fee_tier: tier(t) })
                        }
                        _ => {
                            let t = if !s.tiers.is_empty() && self.rng.chance(4, 5) { *self.rng.pick(&s.tiers) } else { *self.rng.pick(&self.tiers) };
                            Some(ExecuteMsg::RemoveFeeTier { fee_tier: tier(t) })
                        }
                    }
                }
                17 => {
                    let wild = self.rng.chance(1, 2);
                    if s.pools.len() < 7 || wild { Some(self.gen_create_pool(wild)) } else { None }
                }
                _ => self.gen_create(s, true),
            };
            if let Some(m) = m {
                step.msg = m;
                break;
            }
        }
        self.attach(s, &mut step);
        if self.hostile {
            self.make_hostile(s, &mut step);
        }
        step
    }

    /// Attach native coins: exact, short, none or generous.
    pub fn attach(&mut self, s: &Snap, step: &mut Step) {
        let mut blk = Block::of(&self.w);
        blk.height += step.blocks;
        blk.nanos += step.ns;
        let (due, coins) = match spec(s, blk, &step.sender, &step.msg) {
            Ok(e) => (native_due(&e), e.coins),
            Err(_) => return,
        };
        let mut funds: BTreeMap<String, u128> = BTreeMap::new();
        for c in coins.iter().filter(|c| is_native(c)) {
            let need = due.get(c).copied().unwrap_or(0);
            let r = &mut self.rng;
            let v = match r.below(14) {
                0 => need.saturating_sub(1),
                1 => 0,
                2 => need.saturating_add(1),
                3 => need.saturating_mul(2),
                4 => need.saturating_add(r.mag(0, 60)),
                5 if need == 0 => r.mag(0, 40),
                6 => need / 2,
                _ => need,
            };
            if v > 0 {
                funds.insert(c.clone(), v);
            }
        }
        // coins that have nothing to do with the request, sorting around those that do
        if self.extra_coins && !funds.is_empty() && self.rng.chance(1, 6) {
            for i in 0..self.rng.range(1, 12) {
                let d = format!("{}spare{}", *self.rng.pick(&["0", "aa", "f", "ibc/0", "p", "zz"]), i);
                self.w.set_balance(&d, &step.sender, START);
                funds.insert(d, 1 + self.rng.below(1000) as u128);
            }
        }
        step.funds = funds.iter().map(|(d, a)| coin(d, *a)).collect();
    }

    fn make_hostile(&mut self, s: &Snap, step: &mut Step) {
        let cw: Vec<String> = self.tokens.iter().filter(|t| !is_native(t)).cloned().collect();
        if cw.is_empty() {
            return;
        }
        match self.rng.below(12) {
            0 => step.fail = Some(self.rng.pick(&cw).clone()),
            1 | 2 => {
                // a token that calls back into the contract while being transferred
                let tok = self.rng.pick(&cw).clone();
                let k = match self.pick_pool(s) {
                    Some(k) => k,
                    None => return,
                };
                let (m, who) = match self.rng.below(4) {
                    0 => (self.gen_create(s, false), "orai1eve".to_string()),
                    1 => match self.some_position(s) {
                        Some((u, i)) => (Some(ExecuteMsg::RemovePosition { index: i }), u),
                        None => (None, "orai1eve".into()),
                    },
                    2 => match self.some_position(s) {
                        Some((u, i)) => (Some(ExecuteMsg::ClaimFee { index: i }), u),
                        None => (None, "orai1eve".into()),
                    },
                    _ => (Some(self.gen_swap_on(s, &k)), "orai1eve".to_string()),
                };
                if let Some(m) = m {
                    let mut inner = Step { sender: who.clone(), msg: m, funds: vec![], blocks: 0, ns: 0, fail: None, hook: None };
                    self.attach(s, &mut inner);
                    step.hook = Some((tok, who, inner.msg, inner.funds, self.rng.chance(1, 2)));
                }
            }
            _ => {}
        }
    }
}

pub fn tier(t: (u64, u16)) -> FeeTier {
    FeeTier { fee: Percentage(t.0), tick_spacing: t.1 }
}
