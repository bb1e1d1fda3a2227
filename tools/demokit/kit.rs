#![allow(dead_code)]
pub use crate::chain::*;
pub use serde_json::{json, Value};
use cosmwasm_std::Coin;

pub const CORE: &str = "core";
pub const PERI: &str = "periphery";
pub const AIR: &str = "airdrop";
pub const IDX: &str = "factory/core/uibcx";
pub const T0: u64 = 1_700_000_000;

pub fn coins(s: &str) -> Vec<Coin> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| parse_coin(x).unwrap())
        .map(|(n, d)| Coin { denom: d, amount: n.into() })
        .collect()
}

/// a vault with the given basket and fee settings, governed by "gov", reserve "uosmo"
pub fn vault(units: &[(&str, &str)], fee: Value) -> Chain {
    let mut c = Chain::new(T0);
    c.instantiate(Code::Core, CORE, "deployer", json!({
        "gov": "gov", "fee": fee, "index_denom": "uibcx", "index_units": units, "reserve_denom": "uosmo" })).expect("instantiate");
    for a in ["alice", "bobby", POOL] {
        for d in ["uosmo", "uatom", "ujuno", "ustar", "uusdc"] {
            c.set_bal(a, d, 1_000_000_000_000_000);
        }
    }
    c
}
pub fn fee(mint: Value, burn: Value, rate: Value) -> Value {
    let s = if rate.is_null() { Value::Null } else { json!({ "rate": rate, "freeze": false }) };
    json!({ "collector": "coll", "mint_fee": mint, "burn_fee": burn, "streaming_fee": s })
}
pub fn no_fee() -> Value {
    fee(Value::Null, Value::Null, Value::Null)
}
pub trait Acts {
    fn core(&mut self, who: &str, funds: &str, msg: Value) -> Result<(), Fail>;
    fn gov(&mut self, msg: Value) -> Result<(), Fail>;
    fn mint(&mut self, who: &str, amount: u128, funds: &str) -> Result<(), Fail>;
    fn burn(&mut self, who: &str, amount: u128) -> Result<(), Fail>;
    fn route(&mut self, denom: &str, routes: &[(u64, &str)], cooldown: u64, max: u128) -> Result<(), Fail>;
    fn start(&mut self, manager: Value, defl: &[(&str, &str)], infl: &[(&str, &str)]) -> Result<(), Fail>;
    fn sell(&mut self, who: &str, denom: &str, out: u128, max_in: u128) -> Result<(), Fail>;
    fn buy(&mut self, who: &str, denom: &str, pay: u128, min_out: u128) -> Result<(), Fail>;
    fn finalize(&mut self, who: &str) -> Result<(), Fail>;
    fn ask(&self, msg: Value) -> Value;
    fn unit(&self, denom: &str) -> String;
    fn line(&mut self, id: u64, a: &str, b: &str, num: u128, den: u128);
    fn idx(&self, who: &str) -> u128;
}
impl Acts for Chain {
    fn core(&mut self, who: &str, funds: &str, msg: Value) -> Result<(), Fail> {
        self.execute(CORE, who, &coins(funds), &msg)
    }
    fn gov(&mut self, msg: Value) -> Result<(), Fail> {
        self.core("gov", "", json!({ "gov": msg }))
    }
    fn mint(&mut self, who: &str, amount: u128, funds: &str) -> Result<(), Fail> {
        self.core(who, funds, json!({ "mint": { "amount": amount.to_string(), "receiver": null, "refund_to": null } }))
    }
    fn burn(&mut self, who: &str, amount: u128) -> Result<(), Fail> {
        self.core(who, &format!("{amount}{IDX}"), json!({ "burn": { "redeem_to": null } }))
    }
    fn route(&mut self, denom: &str, routes: &[(u64, &str)], cooldown: u64, max: u128) -> Result<(), Fail> {
        let rs: Vec<Value> = routes.iter().map(|(p, d)| json!({ "pool_id": p, "token_denom": d })).collect();
        self.gov(json!({ "update_trade_info": { "denom": denom, "routes": rs, "cooldown": cooldown, "max_trade_amount": max.to_string() } }))
    }
    fn start(&mut self, manager: Value, defl: &[(&str, &str)], infl: &[(&str, &str)]) -> Result<(), Fail> {
        self.core("gov", "", json!({ "rebalance": { "init": { "manager": manager, "deflation": defl, "inflation": infl } } }))
    }
    fn sell(&mut self, who: &str, denom: &str, out: u128, max_in: u128) -> Result<(), Fail> {
        self.core(who, "", json!({ "rebalance": { "trade": { "deflate": { "target_denom": denom, "amount_out": out.to_string(), "max_amount_in": max_in.to_string() } } } }))
    }
    fn buy(&mut self, who: &str, denom: &str, pay: u128, min_out: u128) -> Result<(), Fail> {
        self.core(who, "", json!({ "rebalance": { "trade": { "inflate": { "target_denom": denom, "amount_in": pay.to_string(), "min_amount_out": min_out.to_string() } } } }))
    }
    fn finalize(&mut self, who: &str) -> Result<(), Fail> {
        self.core(who, "", json!({ "rebalance": { "finalize": {} } }))
    }
    fn ask(&self, msg: Value) -> Value {
        self.query(CORE, &msg).expect("query")
    }
    fn unit(&self, denom: &str) -> String {
        let p = self.ask(json!({ "get_portfolio": { "time": null } }));
        p["units"].as_array().unwrap().iter().find(|u| u[0] == denom).map(|u| u[1].as_str().unwrap().to_string()).unwrap_or("none".into())
    }
    fn line(&mut self, id: u64, a: &str, b: &str, num: u128, den: u128) {
        self.pools.insert(id, Pool::Linear { kind: 0, a: a.into(), b: b.into(), num, den });
    }
    fn idx(&self, who: &str) -> u128 {
        self.bal(who, IDX)
    }
}

// ---- airdrops ---------------------------------------------------------------------
use bech32::ToBase32;
use k256::ecdsa::signature::hazmat::PrehashSigner;
use k256::ecdsa::{Signature, SigningKey};
use sha2::{Digest, Sha256};

pub fn sha(b: impl AsRef<[u8]>) -> [u8; 32] {
    Sha256::digest(b.as_ref()).into()
}
/// root and one proof per leaf
pub fn tree(leaves: &[(&str, u128)]) -> (String, Vec<Vec<String>>) {
    let mut level: Vec<[u8; 32]> = leaves.iter().map(|(k, x)| sha(format!("{k}:{x}"))).collect();
    let mut at: Vec<usize> = (0..leaves.len()).collect();
    let mut proofs = vec![vec![]; leaves.len()];
    while level.len() > 1 {
        for (i, p) in at.iter_mut().enumerate() {
            if let Some(s) = level.get(*p ^ 1) {
                proofs[i].push(hex::encode(s));
            }
            *p /= 2;
        }
        level = level
            .chunks(2)
            .map(|c| {
                if c.len() == 1 {
                    return c[0];
                }
                let (x, y) = if c[0] <= c[1] { (c[0], c[1]) } else { (c[1], c[0]) };
                sha([x.as_slice(), y.as_slice()].concat())
            })
            .collect();
    }
    (hex::encode(level[0]), proofs)
}
fn key() -> SigningKey {
    SigningKey::from_slice(&sha("demo key")).unwrap()
}
pub fn signer_pub() -> Vec<u8> {
    key().verifying_key().to_encoded_point(true).as_bytes().to_vec()
}
pub fn sign(text: &str) -> String {
    let s: Signature = key().sign_prehash(&sha(text)).unwrap();
    hex::encode(s.to_bytes())
}
/// a chain with the airdrop contract and rich accounts
pub fn air() -> Chain {
    let mut c = Chain::new(T0);
    c.instantiate(Code::Airdrop, AIR, "deployer", json!({})).expect("instantiate");
    for a in ["alice", "bobby", "carol", "creator", "other"] {
        for d in ["uosmo", "uatom"] {
            c.set_bal(a, d, 1_000_000_000);
        }
    }
    c
}
pub trait Drops {
    fn air(&mut self, who: &str, funds: &str, msg: Value) -> Result<(), Fail>;
    fn open(&mut self, who: &str, funds: &str, root: &str, denom: &str, label: Value) -> Result<(), Fail>;
    fn bearer(&mut self, who: &str, funds: &str, root: &str, denom: &str, label: Value) -> Result<(), Fail>;
    fn claim(&mut self, who: &str, id: u64, key: &str, amount: u128, proof: &[String]) -> Result<(), Fail>;
    fn bclaim(&mut self, id: u64, to: &str, hash: &str, amount: u128, proof: &[String]) -> Result<(), Fail>;
    fn tell(&self, msg: Value) -> Value;
}
impl Drops for Chain {
    fn air(&mut self, who: &str, funds: &str, msg: Value) -> Result<(), Fail> {
        self.execute(AIR, who, &coins(funds), &msg)
    }
    fn open(&mut self, who: &str, funds: &str, root: &str, denom: &str, label: Value) -> Result<(), Fail> {
        self.air(who, funds, json!({ "register": { "open": { "merkle_root": root, "denom": denom, "label": label } } }))
    }
    fn bearer(&mut self, who: &str, funds: &str, root: &str, denom: &str, label: Value) -> Result<(), Fail> {
        let r: [u8; 20] = ripemd::Ripemd160::digest(sha(signer_pub())).into();
        let addr = bech32::encode("osmo", r.to_base32(), bech32::Variant::Bech32).unwrap();
        self.air(who, funds, json!({ "register": { "bearer": { "merkle_root": root, "denom": denom, "label": label,
            "signer_pub": hex::encode(signer_pub()), "signer_sig": sign(&addr) } } }))
    }
    fn claim(&mut self, who: &str, id: u64, key: &str, amount: u128, proof: &[String]) -> Result<(), Fail> {
        self.air(who, "", json!({ "claim": { "open": { "airdrop": { "id": id }, "amount": amount.to_string(), "account": key, "merkle_proof": proof } } }))
    }
    fn bclaim(&mut self, id: u64, to: &str, hash: &str, amount: u128, proof: &[String]) -> Result<(), Fail> {
        let s = sign(&format!("{hash}/{to}/{amount}"));
        self.air(to, "", json!({ "claim": { "bearer": { "airdrop": { "id": id }, "amount": amount.to_string(), "account": to,
            "claim_hash": hash, "claim_sign": s, "merkle_proof": proof } } }))
    }
    fn tell(&self, msg: Value) -> Value {
        self.query(AIR, &msg).expect("query")
    }
}

// ---- pools, simulations, periphery --------------------------------------------------
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{Decimal, Deps, QuerierWrapper, Uint128};
use ibcx_interface::periphery::{RouteKey, SwapInfo};
use ibcx_interface::types::SwapRoutes;
use ibcx_pool::{query_pools, Simulator};
use std::str::FromStr;

/// a weighted pool: (denom, reserve, weight)...; fee in 10^-18
pub fn weighted(c: &mut Chain, id: u64, fee: u128, assets: &[(&str, u128, u128)]) {
    let assets = assets.iter().map(|(d, b, w)| (d.to_string(), *b, *w)).collect();
    c.pools.insert(id, Pool::Weighted { assets, fee });
}
/// routes as the periphery takes them: (from, to, hops)
pub fn infos(rs: &[(&str, &str, &[(u64, &str)])]) -> Value {
    rs.iter()
        .map(|(f, t, h)| json!({ "key": format!("{f},{t}"), "routes": h.iter().map(|(p, d)| format!("{p},{d}")).collect::<Vec<_>>() }))
        .collect()
}
pub fn swap_infos(rs: &[(&str, &str, &[(u64, &str)])]) -> Vec<SwapInfo> {
    rs.iter()
        .map(|(f, t, h)| SwapInfo((RouteKey((f.to_string(), t.to_string())), SwapRoutes::from(h.to_vec()))))
        .collect()
}
/// runs f on the simulator over all pools of the chain
pub fn simulate<T>(c: &Chain, info: &[SwapInfo], units: &[(&str, &str)], f: impl FnOnce(&Simulator) -> T) -> T {
    let (store, api) = (Store::default(), MockApi::default());
    let deps = Deps { storage: &store, api: &api, querier: QuerierWrapper::new(c) };
    let pools = query_pools(&deps, c.pools.keys().copied().collect()).expect("pools");
    let us: Vec<(String, Decimal)> = units.iter().map(|(d, u)| (d.to_string(), Decimal::from_str(u).unwrap())).collect();
    f(&Simulator::new(&deps, &pools, info, &us))
}
pub fn uint(n: u128) -> Uint128 {
    Uint128::new(n)
}
pub trait Trades {
    fn periphery(&mut self);
    fn peri(&mut self, who: &str, funds: &str, msg: Value) -> Result<(), Fail>;
    fn quote(&self, msg: Value) -> Result<Value, Fail>;
}
impl Trades for Chain {
    fn periphery(&mut self) {
        self.instantiate(Code::Periphery, PERI, "deployer", json!({})).expect("periphery");
    }
    fn peri(&mut self, who: &str, funds: &str, msg: Value) -> Result<(), Fail> {
        self.execute(PERI, who, &coins(funds), &msg)
    }
    fn quote(&self, msg: Value) -> Result<Value, Fail> {
        self.query(PERI, &msg)
    }
}
