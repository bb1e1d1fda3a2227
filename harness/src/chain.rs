//! A miniature chain: bank, token factory, pool manager, wasm dispatch, block time,
//! atomic transactions.  It hosts the real contracts through their public entry
//! points; nothing of the contracts' logic is re-implemented here.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, AllBalanceResponse, BalanceResponse, BankMsg, BankQuery,
    Binary, BlockInfo, Coin, ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env,
    MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, QueryRequest, Record, Reply,
    ReplyOn, Response, Storage, SubMsg, SubMsgResponse, SubMsgResult, SystemError,
    SystemResult, Timestamp, Uint128, WasmMsg, WasmQuery,
};
use osmosis_std::types::osmosis::poolmanager::v1beta1 as pm;
use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
use prost::Message;
use serde_json::json;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Unbounded, |s| Included(s.to_vec()));
        let hi = end.map_or(Unbounded, |e| Excluded(e.to_vec()));
        let it = self
            .0
            .range((lo, hi))
            .map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Code {
    Core,
    Airdrop,
    Periphery,
}

/// A pool at a constant price (num/den b for one a; kind 1 answers pool queries as a
/// concentrated pool, 2 as a stable pool, 0 not at all) or a weighted pool
/// (denom, reserve, weight).
#[derive(Clone, Debug, PartialEq)]
pub enum Pool {
    Linear { kind: u8, a: String, b: String, num: u128, den: u128 },
    Weighted { assets: Vec<(String, u128, u128)>, fee: u128 },
}

pub type Bank = BTreeMap<(String, String), u128>;

#[derive(Clone)]
pub struct Chain {
    pub now: u64,
    pub height: u64,
    pub bank: Bank,
    pub stores: BTreeMap<String, (Code, Store)>,
    pub pools: BTreeMap<u64, Pool>,
    pub skew: u128,
    pub denoms: BTreeMap<String, String>,
    /// message trail of the last transaction (for failure reports)
    pub trail: Vec<String>,
    /// swaps the last transaction asked the pool manager for
    pub swaps: Vec<Swap>,
    /// events of the last transaction: contract and attributes, in the order of execution
    pub said: Vec<(String, Vec<(String, String)>)>,
}

/// a swap message: the exact side, the other side's limit
#[derive(Clone, Debug, PartialEq)]
pub struct Swap {
    pub exact_in: bool,
    pub denom: String,
    pub amount: u128,
    pub limit: u128,
    /// pool and the denom the message names for it
    pub hops: Vec<(u64, String)>,
}

pub type Fail = String;

pub const POOL: &str = "pool";

impl Chain {
    pub fn new(now: u64) -> Self {
        Chain {
            now,
            height: 1,
            bank: BTreeMap::new(),
            stores: BTreeMap::new(),
            pools: BTreeMap::new(),
            skew: 100,
            denoms: BTreeMap::new(),
            trail: vec![],
            swaps: vec![],
            said: vec![],
        }
    }

    pub fn env(&self, addr: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_seconds(self.now),
                chain_id: "mini-1".into(),
            },
            transaction: None,
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }

    // ---- bank ---------------------------------------------------------------
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.bank.get(&(a.to_string(), d.to_string())).copied().unwrap_or(0)
    }
    pub fn set_bal(&mut self, a: &str, d: &str, n: u128) {
        if n == 0 {
            self.bank.remove(&(a.to_string(), d.to_string()));
        } else {
            self.bank.insert((a.to_string(), d.to_string()), n);
        }
    }
    pub fn supply_of(&self, d: &str) -> u128 {
        self.bank.iter().filter(|((_, x), _)| x == d).map(|(_, n)| *n).sum()
    }
    fn debit(&mut self, a: &str, d: &str, n: u128) -> Result<(), Fail> {
        let h = self.bal(a, d);
        if h < n {
            return Err(format!("insufficient funds: {a} has {h}{d}, needs {n}"));
        }
        self.set_bal(a, d, h - n);
        Ok(())
    }
    fn credit(&mut self, a: &str, d: &str, n: u128) -> Result<(), Fail> {
        let h = self.bal(a, d).checked_add(n).ok_or("bank overflow")?;
        self.set_bal(a, d, h);
        Ok(())
    }
    pub fn transfer(&mut self, f: &str, t: &str, d: &str, n: u128) -> Result<(), Fail> {
        self.debit(f, d, n)?;
        self.credit(t, d, n)
    }
    /// a Send message: no coins is a no-op, coins that are all zero make it invalid
    fn send_coins(&mut self, f: &str, t: &str, coins: &[Coin]) -> Result<(), Fail> {
        if coins.is_empty() {
            return Ok(());
        }
        let live: Vec<_> = coins.iter().filter(|c| !c.amount.is_zero()).collect();
        if live.is_empty() {
            return Err("invalid coins: nothing to send".into());
        }
        for c in live {
            self.transfer(f, t, &c.denom, c.amount.u128())?;
        }
        Ok(())
    }
    fn attach(&mut self, f: &str, t: &str, coins: &[Coin]) -> Result<(), Fail> {
        for c in coins {
            if c.amount.is_zero() {
                return Err("invalid coins: zero funds".into());
            }
            self.transfer(f, t, &c.denom, c.amount.u128())?;
        }
        Ok(())
    }

    // ---- transactions --------------------------------------------------------
    fn atomically<T>(&mut self, f: impl FnOnce(&mut Chain) -> Result<T, Fail>) -> Result<T, Fail> {
        let mut next = self.clone();
        next.trail.clear();
        next.swaps.clear();
        next.said.clear();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut next)));
        match r {
            Ok(Ok(v)) => {
                *self = next;
                Ok(v)
            }
            Ok(Err(e)) => {
                self.trail = next.trail;
                self.swaps = next.swaps;
                Err(e)
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.trail = next.trail;
                self.swaps = next.swaps;
                Err(format!("panic: {m}"))
            }
        }
    }

    pub fn instantiate(
        &mut self,
        code: Code,
        addr: &str,
        sender: &str,
        msg: serde_json::Value,
    ) -> Result<(), Fail> {
        crate::wire::note(code, "instantiate", addr, sender, &[], &msg, None);
        self.atomically(|c| {
            c.stores.insert(addr.to_string(), (code, Store::default()));
            let bin = serde_json::to_vec(&msg).unwrap();
            let r = c.enter(addr, |code, deps, env| {
                let info = MessageInfo { sender: Addr::unchecked(sender), funds: vec![] };
                match code {
                    Code::Core => ibcx_core::contract::instantiate(deps, env, info, from_json(&bin).map_err(es)?).map_err(es),
                    Code::Airdrop => ibcx_airdrop::contract::instantiate(deps, env, info, from_json(&bin).map_err(es)?).map_err(es),
                    Code::Periphery => ibcx_periphery::contract::instantiate(deps, env, info, from_json(&bin).map_err(es)?).map_err(es),
                }
            })?;
            c.dispatch(addr, r)
        })
    }

    pub fn migrate(&mut self, addr: &str, msg: serde_json::Value) -> Result<(), Fail> {
        self.atomically(|c| {
            let bin = serde_json::to_vec(&msg).unwrap();
            let r = c.enter(addr, |code, deps, env| match code {
                Code::Core => ibcx_core::contract::migrate(deps, env, from_json(&bin).map_err(es)?).map_err(es),
                Code::Airdrop => ibcx_airdrop::contract::migrate(deps, env, from_json(&bin).map_err(es)?).map_err(es),
                Code::Periphery => ibcx_periphery::contract::migrate(deps, env, from_json(&bin).map_err(es)?).map_err(es),
            })?;
            c.dispatch(addr, r)
        })
    }

    pub fn execute(
        &mut self,
        addr: &str,
        sender: &str,
        funds: &[Coin],
        msg: &serde_json::Value,
    ) -> Result<(), Fail> {
        if let Some((code, _)) = self.stores.get(addr) {
            crate::wire::note(*code, "execute", addr, sender, funds, msg, None);
        }
        let bin = serde_json::to_vec(msg).unwrap();
        self.atomically(|c| c.call(addr, sender, funds, &bin))
    }

    fn call(&mut self, addr: &str, sender: &str, funds: &[Coin], bin: &[u8]) -> Result<(), Fail> {
        self.attach(sender, addr, funds)?;
        // funds arrive sorted by denom on a real chain
        let mut fs = funds.to_vec();
        fs.sort_by(|a, b| a.denom.cmp(&b.denom));
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: fs };
        let r = self.enter(addr, |code, deps, env| match code {
            Code::Core => ibcx_core::contract::execute(deps, env, info, from_json(bin).map_err(es)?).map_err(es),
            Code::Airdrop => ibcx_airdrop::contract::execute(deps, env, info, from_json(bin).map_err(es)?).map_err(es),
            Code::Periphery => ibcx_periphery::contract::execute(deps, env, info, from_json(bin).map_err(es)?).map_err(es),
        })?;
        self.dispatch(addr, r)
    }

    fn enter(
        &mut self,
        addr: &str,
        f: impl FnOnce(Code, DepsMut, Env) -> Result<Response, Fail>,
    ) -> Result<Response, Fail> {
        let (code, mut store) = self.stores.get(addr).cloned().ok_or(format!("no contract {addr}"))?;
        let env = self.env(addr);
        let api = MockApi::default();
        let r = f(
            code,
            DepsMut { storage: &mut store, api: &api, querier: QuerierWrapper::new(self) },
            env,
        )?;
        self.stores.insert(addr.to_string(), (code, store));
        Ok(r)
    }

    fn dispatch(&mut self, addr: &str, r: Response) -> Result<(), Fail> {
        self.said.push((addr.to_string(), r.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect()));
        for sub in r.messages {
            self.submsg(addr, sub)?;
        }
        Ok(())
    }

    fn submsg(&mut self, addr: &str, sub: SubMsg) -> Result<(), Fail> {
        let save = self.clone();
        match self.message(addr, sub.msg) {
            Ok(data) => {
                if matches!(sub.reply_on, ReplyOn::Success | ReplyOn::Always) {
                    self.reply(addr, sub.id, SubMsgResult::Ok(SubMsgResponse { events: vec![], data }))?;
                }
                Ok(())
            }
            Err(e) => {
                if matches!(sub.reply_on, ReplyOn::Error | ReplyOn::Always) {
                    let trail = std::mem::take(&mut self.trail);
                    *self = save;
                    self.trail = trail;
                    self.reply(addr, sub.id, SubMsgResult::Err(e))
                } else {
                    Err(e)
                }
            }
        }
    }

    fn reply(&mut self, addr: &str, id: u64, result: SubMsgResult) -> Result<(), Fail> {
        let r = self.enter(addr, |code, deps, env| match code {
            Code::Core => ibcx_core::contract::reply(deps, env, Reply { id, result }).map_err(es),
            _ => Err("contract has no reply".into()),
        })?;
        self.dispatch(addr, r)
    }

    fn message(&mut self, from: &str, msg: CosmosMsg) -> Result<Option<Binary>, Fail> {
        if self.trail.len() < 64 {
            self.trail.push(format!("{from}: {}", brief(&msg)));
        }
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                self.send_coins(from, &to_address, &amount)?;
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                self.call(&contract_addr, from, &funds, msg.as_slice())?;
                Ok(None)
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(from, &type_url, value.as_slice()),
            other => Err(format!("unsupported message {other:?}")),
        }
    }

    fn stargate(&mut self, from: &str, url: &str, v: &[u8]) -> Result<Option<Binary>, Fail> {
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = tf::MsgCreateDenom::decode(v).map_err(es)?;
                same(from, &m.sender)?;
                let d = format!("factory/{}/{}", m.sender, m.subdenom);
                if self.denoms.contains_key(&d) {
                    return Err("denom exists".into());
                }
                self.denoms.insert(d.clone(), m.sender);
                Ok(Some(tf::MsgCreateDenomResponse { new_token_denom: d }.encode_to_vec().into()))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = tf::MsgMint::decode(v).map_err(es)?;
                let c = self.factory(from, &m.sender, m.amount)?;
                let to = if m.mint_to_address.is_empty() { m.sender.clone() } else { m.mint_to_address };
                self.credit(&to, &c.0, c.1)?;
                Ok(None)
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = tf::MsgBurn::decode(v).map_err(es)?;
                let c = self.factory(from, &m.sender, m.amount)?;
                let of = if m.burn_from_address.is_empty() { m.sender.clone() } else { m.burn_from_address };
                self.debit(&of, &c.0, c.1)?;
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountIn" => {
                let m = pm::MsgSwapExactAmountIn::decode(v).map_err(es)?;
                same(from, &m.sender)?;
                let t = m.token_in.ok_or("no token_in")?;
                let x: u128 = t.amount.parse().map_err(es)?;
                let min: u128 = m.token_out_min_amount.parse().map_err(es)?;
                let rs: Vec<(u64, String)> = m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.clone())).collect();
                self.swaps.push(Swap { exact_in: true, denom: t.denom.clone(), amount: x, limit: min, hops: rs.clone() });
                let (d, est) = self.run_in(&rs, &t.denom, x, true)?;
                let got = est * self.skew / 100;
                if got < min {
                    return Err(format!("swap: {got}{d} below the minimum {min}"));
                }
                self.transfer(from, POOL, &t.denom, x)?;
                self.transfer(POOL, from, &d, got)?;
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountOut" => {
                let m = pm::MsgSwapExactAmountOut::decode(v).map_err(es)?;
                same(from, &m.sender)?;
                let t = m.token_out.ok_or("no token_out")?;
                let y: u128 = t.amount.parse().map_err(es)?;
                let max: u128 = m.token_in_max_amount.parse().map_err(es)?;
                let rs: Vec<(u64, String)> = m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.clone())).collect();
                self.swaps.push(Swap { exact_in: false, denom: t.denom.clone(), amount: y, limit: max, hops: rs.clone() });
                let (d, est) = self.run_out(&rs, &t.denom, y, true)?;
                let paid = (est * 100 + self.skew - 1) / self.skew;
                if paid > max {
                    return Err(format!("swap: {paid}{d} above the maximum {max}"));
                }
                self.transfer(from, POOL, &d, paid)?;
                self.transfer(POOL, from, &t.denom, y)?;
                Ok(None)
            }
            _ => Err(format!("unsupported stargate message {url}")),
        }
    }

    fn factory(
        &self,
        from: &str,
        sender: &str,
        amount: Option<osmosis_std::types::cosmos::base::v1beta1::Coin>,
    ) -> Result<(String, u128), Fail> {
        same(from, sender)?;
        let c = amount.ok_or("no amount")?;
        let n: u128 = c.amount.parse().map_err(es)?;
        if n == 0 {
            return Err("tokenfactory: zero amount".into());
        }
        if self.denoms.get(&c.denom).map(|s| s.as_str()) != Some(sender) {
            return Err(format!("tokenfactory: {sender} is not the admin of {}", c.denom));
        }
        Ok((c.denom, n))
    }

    // ---- pools ---------------------------------------------------------------
    /// exact-in along a route; `act` moves the reserves of weighted pools
    fn run_in(&mut self, rs: &[(u64, String)], din: &str, x: u128, act: bool) -> Result<(String, u128), Fail> {
        if x == 0 || rs.is_empty() {
            return Err("pool: zero amount".into());
        }
        let (mut d, mut n) = (din.to_string(), x);
        for (id, out) in rs {
            let p = self.pools.get(id).cloned().ok_or(format!("pool {id} not found"))?;
            let y = match &p {
                Pool::Linear { a, b, num, den, .. } => {
                    if !((&d == a && out == b) || (&d == b && out == a)) {
                        return Err(format!("pool {id} does not trade {d} for {out}"));
                    }
                    if &d == a { muldiv(n, *num, *den) } else { muldiv(n, *den, *num) }
                }
                Pool::Weighted { .. } => {
                    let (y, next) = crate::weighted::swap_in(&p, &d, n, out)?;
                    if act {
                        self.pools.insert(*id, next);
                    }
                    y
                }
            };
            if y == 0 {
                return Err("pool: zero output".into());
            }
            d = out.clone();
            n = y;
        }
        Ok((d, n))
    }

    /// exact-out along a route, walked backwards; for linear pools the paying denom
    /// is the pool's other side whatever the route says (DESIGN.md, finding K3)
    fn run_out(&mut self, rs: &[(u64, String)], dout: &str, y: u128, act: bool) -> Result<(String, u128), Fail> {
        if y == 0 || rs.is_empty() {
            return Err("pool: zero amount".into());
        }
        let (mut d, mut n) = (dout.to_string(), y);
        for (id, din) in rs.iter().rev() {
            let p = self.pools.get(id).cloned().ok_or(format!("pool {id} not found"))?;
            let (nd, x) = match &p {
                Pool::Linear { a, b, num, den, kind } => {
                    if *kind != 0 && !((&d == a && din == b) || (&d == b && din == a)) {
                        return Err(format!("pool {id} does not trade {din} for {d}"));
                    }
                    if &d == a {
                        (b.clone(), muldiv_up(n, *num, *den))
                    } else if &d == b {
                        (a.clone(), muldiv_up(n, *den, *num))
                    } else {
                        return Err(format!("pool {id} does not trade {d}"));
                    }
                }
                Pool::Weighted { .. } => {
                    let (x, next) = crate::weighted::swap_out(&p, din, &d, n)?;
                    if act {
                        self.pools.insert(*id, next);
                    }
                    (din.clone(), x)
                }
            };
            if x == 0 {
                return Err("pool: zero input".into());
            }
            d = nd;
            n = x;
        }
        Ok((d, n))
    }

    // ---- queries -------------------------------------------------------------
    pub fn query(&self, addr: &str, msg: &serde_json::Value) -> Result<serde_json::Value, Fail> {
        let bin = serde_json::to_vec(msg).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| self.smart(addr, &bin)));
        match r {
            Ok(Ok(b)) => {
                let v = serde_json::from_slice(b.as_slice()).map_err(es)?;
                if let Some((code, _)) = self.stores.get(addr) {
                    crate::wire::note(*code, "query", addr, "", &[], msg, Some(&v));
                }
                Ok(v)
            }
            Ok(Err(e)) => Err(e),
            Err(_) => Err("panic".into()),
        }
    }

    fn smart(&self, addr: &str, bin: &[u8]) -> Result<Binary, Fail> {
        let (code, store) = self.stores.get(addr).ok_or(format!("no contract {addr}"))?;
        let api = MockApi::default();
        let deps = Deps { storage: store, api: &api, querier: QuerierWrapper::new(self) };
        let env = self.env(addr);
        match code {
            Code::Core => ibcx_core::contract::query(deps, env, from_json(bin).map_err(es)?).map_err(es),
            Code::Airdrop => ibcx_airdrop::contract::query(deps, env, from_json(bin).map_err(es)?).map_err(es),
            Code::Periphery => ibcx_periphery::contract::query(deps, env, from_json(bin).map_err(es)?).map_err(es),
        }
    }

    fn grpc(&self, path: &str, data: &[u8]) -> Result<Binary, Fail> {
        match path {
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn" => {
                let m = pm::EstimateSwapExactAmountInRequest::decode(data).map_err(es)?;
                let (x, d) = parse_coin(&m.token_in)?;
                let rs: Vec<(u64, String)> = m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.clone())).collect();
                let (_, y) = self.clone().run_in(&rs, &d, x, true)?;
                Ok(to_json_binary(&json!({ "token_out_amount": y.to_string() })).unwrap())
            }
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut" => {
                let m = pm::EstimateSwapExactAmountOutRequest::decode(data).map_err(es)?;
                let (y, d) = parse_coin(&m.token_out)?;
                let rs: Vec<(u64, String)> = m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.clone())).collect();
                let (_, x) = self.clone().run_out(&rs, &d, y, true)?;
                Ok(to_json_binary(&json!({ "token_in_amount": x.to_string() })).unwrap())
            }
            "/osmosis.poolmanager.v1beta1.Query/Pool" => {
                let m = pm::PoolRequest::decode(data).map_err(es)?;
                let s = self.pools.get(&m.pool_id).and_then(|p| crate::weighted::pool_json(m.pool_id, p));
                Ok(Binary::from(s.ok_or(format!("pool {} not found", m.pool_id))?.into_bytes()))
            }
            _ => Err(format!("unsupported query {path}")),
        }
    }
}

impl Querier for Chain {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(v) => v,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        let r: Result<Binary, Fail> = match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let n = self.bal(&address, &denom);
                to_json_binary(&BalanceResponse { amount: Coin { denom, amount: Uint128::new(n) } }).map_err(es)
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let amount = self
                    .bank
                    .iter()
                    .filter(|((a, _), _)| *a == address)
                    .map(|((_, d), n)| Coin { denom: d.clone(), amount: Uint128::new(*n) })
                    .collect();
                to_json_binary(&AllBalanceResponse { amount }).map_err(es)
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => self.smart(&contract_addr, msg.as_slice()),
            QueryRequest::Stargate { path, data } => self.grpc(&path, data.as_slice()),
            other => Err(format!("unsupported query {other:?}")),
        };
        SystemResult::Ok(match r {
            Ok(v) => ContractResult::Ok(v),
            Err(e) => ContractResult::Err(e),
        })
    }
}

pub fn es<E: std::fmt::Display>(e: E) -> Fail {
    e.to_string()
}

fn same(a: &str, b: &str) -> Result<(), Fail> {
    if a == b {
        Ok(())
    } else {
        Err(format!("message of {b} sent by {a}"))
    }
}

fn brief(m: &CosmosMsg) -> String {
    match m {
        CosmosMsg::Bank(b) => format!("{b:?}"),
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => format!(
            "execute {contract_addr} {} {}",
            String::from_utf8_lossy(msg.as_slice()),
            funds.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
        ),
        CosmosMsg::Stargate { type_url, .. } => type_url.clone(),
        o => format!("{o:?}"),
    }
}

pub fn parse_coin(s: &str) -> Result<(u128, String), Fail> {
    let k = s.find(|c: char| !c.is_ascii_digit()).ok_or("bad coin")?;
    Ok((s[..k].parse().map_err(es)?, s[k..].to_string()))
}

use cosmwasm_std::{Uint256, Uint512};
fn muldiv(x: u128, n: u128, d: u128) -> u128 {
    let r = Uint256::from(x) * Uint256::from(n) / Uint256::from(d);
    Uint128::try_from(r).map(|v| v.u128()).unwrap_or(u128::MAX)
}
fn muldiv_up(x: u128, n: u128, d: u128) -> u128 {
    let p = Uint512::from(x) * Uint512::from(n);
    let d5 = Uint512::from(d);
    let r = (p + d5 - Uint512::from(1u128)) / d5;
    let r = Uint256::try_from(r).unwrap_or(Uint256::MAX);
    Uint128::try_from(r).map(|v| v.u128()).unwrap_or(u128::MAX)
}
