#![allow(dead_code)]
//! A minimal chain for the demonstrations: the contract on an in-memory store, with roll-back of failed calls.
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{from_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Env, OwnedDeps, Response, Storage, Uint128, WasmMsg};
use cw20::Cw20ExecuteMsg;
pub use decimal::Decimal;
pub use oraiswap_v3::fee_growth::FeeGrowth;
pub use oraiswap_v3::interface::*;
pub use oraiswap_v3::liquidity::Liquidity;
pub use oraiswap_v3::msg::*;
pub use oraiswap_v3::percentage::Percentage;
pub use oraiswap_v3::sqrt_price::{calculate_sqrt_price, SqrtPrice};
pub use oraiswap_v3::token_amount::TokenAmount;
pub use oraiswap_v3::{contract, FeeTier, Pool, PoolKey, Position, Tick};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const X: &str = "token_x";
pub const Y: &str = "token_y";
pub const L1: u128 = 1_000_000;

pub struct Sim {
    pub deps: OwnedDeps<MockStorage, MockApi, MockQuerier>,
    pub env: Env,
}

pub fn tier(fee: u64, spacing: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee), tick_spacing: spacing }
}
pub fn key(a: &str, b: &str, t: FeeTier) -> PoolKey {
    PoolKey::new(a.to_string(), b.to_string(), t).unwrap()
}
pub fn price(tick: i32) -> SqrtPrice {
    calculate_sqrt_price(tick).unwrap()
}
pub fn token_id(owner: &str, index: u32) -> Binary {
    let mut v = owner.as_bytes().to_vec();
    v.extend_from_slice(&index.to_be_bytes());
    Binary(v)
}

impl Sim {
    pub fn new(protocol_fee: u64) -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        let mut s = Sim { deps: mock_dependencies(), env: mock_env() };
        contract::instantiate(
            s.deps.as_mut(),
            s.env.clone(),
            mock_info("admin", &[]),
            InstantiateMsg { protocol_fee: Percentage::new(protocol_fee) },
        )
        .unwrap();
        s
    }
    pub fn dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.deps.storage.range(None, None, cosmwasm_std::Order::Ascending).collect()
    }
    pub fn put(&mut self, k: &[u8], v: &[u8]) {
        self.deps.storage.set(k, v)
    }
    pub fn pass(&mut self, seconds: u64, blocks: u64) {
        self.env.block.time = self.env.block.time.plus_seconds(seconds);
        self.env.block.height += blocks;
    }
    pub fn exec_with(&mut self, sender: &str, funds: &[Coin], msg: ExecuteMsg) -> Result<Response, String> {
        let before = self.dump();
        let r = catch_unwind(AssertUnwindSafe(|| {
            contract::execute(self.deps.as_mut(), self.env.clone(), mock_info(sender, funds), msg)
        }));
        let r = match r {
            Ok(Ok(r)) => return Ok(r),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("panic".to_string()),
        };
        for (k, _) in self.dump() {
            self.deps.storage.remove(&k);
        }
        for (k, v) in before {
            self.deps.storage.set(&k, &v);
        }
        r
    }
    pub fn exec(&mut self, sender: &str, msg: ExecuteMsg) -> Result<Response, String> {
        self.exec_with(sender, &[], msg)
    }
    pub fn try_query<T: serde::de::DeserializeOwned>(&self, msg: QueryMsg) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(|| contract::query(self.deps.as_ref(), self.env.clone(), msg))) {
            Ok(Ok(b)) => from_binary(&b).map_err(|e| e.to_string()),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("panic".into()),
        }
    }
    pub fn query<T: serde::de::DeserializeOwned>(&self, msg: QueryMsg) -> T {
        self.try_query(msg).expect("query")
    }
    pub fn pool(&self, k: &PoolKey) -> Pool {
        self.query(QueryMsg::Pool { token_0: k.token_x.clone(), token_1: k.token_y.clone(), fee_tier: k.fee_tier })
    }
    pub fn tick(&self, k: &PoolKey, index: i32) -> Result<Tick, String> {
        self.try_query(QueryMsg::Tick { key: k.clone(), index })
    }
    pub fn position(&self, owner: &str, index: u32) -> Result<Position, String> {
        self.try_query(QueryMsg::Position { owner_id: Addr::unchecked(owner), index })
    }
    pub fn add_tier(&mut self, t: FeeTier) {
        self.exec("admin", ExecuteMsg::AddFeeTier { fee_tier: t }).unwrap();
    }
    pub fn create_pool(&mut self, a: &str, b: &str, t: FeeTier, tick: i32) -> PoolKey {
        self.exec(
            "anyone",
            ExecuteMsg::CreatePool { token_0: a.into(), token_1: b.into(), fee_tier: t, init_sqrt_price: price(tick), init_tick: tick },
        )
        .unwrap();
        key(a, b, t)
    }
    pub fn setup(protocol_fee: u64, t: FeeTier, tick: i32) -> (Self, PoolKey) {
        let mut s = Sim::new(protocol_fee);
        s.add_tier(t);
        let k = s.create_pool(X, Y, t, tick);
        (s, k)
    }
    pub fn open_msg(k: &PoolKey, lower: i32, upper: i32, liquidity: u128) -> ExecuteMsg {
        ExecuteMsg::CreatePosition {
            pool_key: k.clone(),
            lower_tick: lower,
            upper_tick: upper,
            liquidity_delta: Liquidity::new(liquidity),
            slippage_limit_lower: SqrtPrice::new(0),
            slippage_limit_upper: SqrtPrice::new(u128::MAX),
        }
    }
    pub fn open(&mut self, who: &str, k: &PoolKey, lower: i32, upper: i32, liquidity: u128) -> Result<Response, String> {
        self.exec(who, Self::open_msg(k, lower, upper, liquidity))
    }
    pub fn swap_msg(k: &PoolKey, x_to_y: bool, amount: u128, by_in: bool, limit: Option<SqrtPrice>) -> ExecuteMsg {
        ExecuteMsg::Swap {
            pool_key: k.clone(),
            x_to_y,
            amount: TokenAmount(amount),
            by_amount_in: by_in,
            sqrt_price_limit: limit.unwrap_or(if x_to_y {
                SqrtPrice::new(oraiswap_v3::MIN_SQRT_PRICE)
            } else {
                SqrtPrice::new(oraiswap_v3::MAX_SQRT_PRICE)
            }),
        }
    }
    pub fn swap(&mut self, who: &str, k: &PoolKey, x_to_y: bool, amount: u128, by_in: bool) -> Result<(u128, u128), String> {
        let r = self.exec(who, Self::swap_msg(k, x_to_y, amount, by_in, None))?;
        Ok((attr(&r, "amount_in"), attr(&r, "amount_out")))
    }
    pub fn claim(&mut self, who: &str, index: u32) -> Result<(u128, u128), String> {
        let r = self.exec(who, ExecuteMsg::ClaimFee { index })?;
        Ok((attr(&r, "amount_x"), attr(&r, "amount_y")))
    }
    pub fn close(&mut self, who: &str, index: u32) -> Result<Response, String> {
        self.exec(who, ExecuteMsg::RemovePosition { index })
    }
}

pub fn attr(r: &Response, name: &str) -> u128 {
    let v = &r.attributes.iter().find(|a| a.key == name).expect("attribute").value;
    v.parse().expect("number")
}

/// Net flow of one token into the contract caused by the messages of a response (attached coins not counted).
pub fn flow(r: &Response, token: &str) -> i128 {
    let n = |u: Uint128| u.u128() as i128;
    let mut sum = 0;
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) if contract_addr == token => match from_binary(msg).unwrap() {
                Cw20ExecuteMsg::Transfer { amount, .. } => sum -= n(amount),
                Cw20ExecuteMsg::TransferFrom { amount, .. } => sum += n(amount),
                _ => panic!("message"),
            },
            CosmosMsg::Bank(BankMsg::Send { amount, .. }) => {
                for c in amount.iter().filter(|c| c.denom == token) {
                    sum -= n(c.amount)
                }
            }
            _ => {}
        }
    }
    sum
}

/// Ends the demonstration with failure if the condition does not hold.
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
