//! Weighted pools of the mini chain, after Osmosis' gamm module (18-digit truncating
//! decimals, binomial series for fractional powers), independent of the code under
//! test; and the JSON under which a node returns the pools.
use crate::chain::{Fail, Pool};
use cosmwasm_std::{Uint128, Uint256};

type U = Uint256;
fn u(x: u128) -> U {
    U::from(x)
}
fn one() -> U {
    u(1_000_000_000_000_000_000)
}
fn mul(a: U, b: U) -> Result<U, Fail> {
    Ok(a.checked_mul(b).map_err(|e| e.to_string())? / one())
}

fn pow(b: U, e: U) -> Result<U, Fail> {
    if b.is_zero() || b >= one() + one() {
        return Err("pool: base of the power out of range".into());
    }
    let (mut i, f) = (e / one(), e % one());
    let mut whole = one();
    let mut sq = b;
    if e == one() {
        return Ok(b);
    }
    if i.is_zero() {
        sq = one();
    }
    while i > u(1) {
        if i % u(2) == u(1) {
            whole = mul(whole, sq)?;
        }
        i = i / u(2);
        sq = mul(sq, sq)?;
    }
    whole = mul(sq, whole)?;
    if f.is_zero() {
        return Ok(whole);
    }
    let (x, down) = if b >= one() { (b - one(), false) } else { (one() - b, true) };
    let (mut term, mut sum, mut neg) = (one(), one(), false);
    let mut k = U::zero();
    for n in 1..100_000u128 {
        if term < u(10_000_000_000) {
            return mul(whole, sum);
        }
        let (c, cneg) = if f >= k { (f - k, false) } else { (k - f, true) };
        term = mul(term, mul(c, x)?)? / u(n);
        if term.is_zero() {
            return mul(whole, sum);
        }
        neg ^= down ^ cneg;
        sum = if neg { sum - term } else { sum + term };
        k = k + one();
    }
    Err("pool: the power series does not end".into())
}

fn slot(assets: &[(String, u128, u128)], d: &str) -> Result<usize, Fail> {
    assets.iter().position(|(x, _, _)| x == d).ok_or(format!("pool: no asset {d}"))
}
fn small(x: U) -> Result<u128, Fail> {
    Uint128::try_from(x).map(|v| v.u128()).map_err(|e| e.to_string())
}

pub fn swap_in(p: &Pool, din: &str, x: u128, dout: &str) -> Result<(u128, Pool), Fail> {
    let Pool::Weighted { assets, fee } = p else { return Err("not weighted".into()) };
    let (i, o) = (slot(assets, din)?, slot(assets, dout)?);
    let (bi, bo) = (u(assets[i].1), u(assets[o].1));
    let y = bi * one() / (bi + u(x) * (one() - u(*fee)) / one());
    let r = pow(y, u(assets[i].2) * one() / u(assets[o].2))?;
    if r >= one() {
        return Err("pool: token amount must be positive".into());
    }
    let n = small(bo * (one() - r) / one())?;
    if u(n) >= bo {
        return Err("pool: can't set a pool asset amount to non-positive".into());
    }
    let mut next = assets.clone();
    next[i].1 += x;
    next[o].1 -= n;
    Ok((n, Pool::Weighted { assets: next, fee: *fee }))
}

pub fn swap_out(p: &Pool, din: &str, dout: &str, n: u128) -> Result<(u128, Pool), Fail> {
    let Pool::Weighted { assets, fee } = p else { return Err("not weighted".into()) };
    let (i, o) = (slot(assets, din)?, slot(assets, dout)?);
    let (bi, bo) = (u(assets[i].1), u(assets[o].1));
    if u(n) >= bo {
        return Err("pool: not enough of the asset".into());
    }
    let y = bo * one() / (bo - u(n));
    let r = pow(y, u(assets[o].2) * one() / u(assets[i].2))?;
    if r < one() {
        return Err("pool: token amount must be positive".into());
    }
    let x = bi * (r - one()) * one() / (one() - u(*fee));
    let x = small((x + one() - u(1)) / one())?;
    let mut next = assets.clone();
    next[i].1 += x;
    next[o].1 -= n;
    Ok((x, Pool::Weighted { assets: next, fee: *fee }))
}

pub fn dec(x: u128) -> String {
    format!("{}.{:018}", x / 1_000_000_000_000_000_000, x % 1_000_000_000_000_000_000)
}

/// as a node answers Query/Pool: the type comes first
pub fn pool_json(id: u64, p: &Pool) -> Option<String> {
    match p {
        Pool::Weighted { assets, fee } => {
            let mut s = format!(
                r#"{{"pool":{{"@type":"/osmosis.gamm.v1beta1.Pool","address":"pool{id}","id":"{id}","pool_params":{{"swap_fee":"{}","exit_fee":"0.000000000000000000","smooth_weight_change_params":null}},"future_pool_governor":"24h","total_shares":{{"denom":"gamm/pool/{id}","amount":"100000000000000000000"}},"pool_assets":["#,
                dec(*fee)
            );
            for (k, (d, b, w)) in assets.iter().enumerate() {
                s += &format!(r#"{}{{"token":{{"denom":"{d}","amount":"{b}"}},"weight":"{w}"}}"#, if k > 0 { "," } else { "" });
            }
            let tot: u128 = assets.iter().map(|a| a.2).sum();
            Some(s + &format!(r#"],"total_weight":"{tot}"}}}}"#))
        }
        Pool::Linear { kind: 1, a, b, .. } => Some(format!(
            r#"{{"pool":{{"@type":"/osmosis.concentratedliquidity.v1beta1.Pool","address":"pool{id}","incentives_address":"inc{id}","spread_rewards_address":"spread{id}","id":"{id}","current_tick_liquidity":"1000000.000000000000000000","token0":"{a}","token1":"{b}","current_sqrt_price":"1.000000000000000000000000000000000000","current_tick":"0","tick_spacing":"100","exponent_at_price_one":"-6","spread_factor":"0.002000000000000000","last_liquidity_update":"2023-10-01T00:00:00Z"}}}}"#
        )),
        Pool::Linear { kind: 2, a, b, .. } => Some(format!(
            r#"{{"pool":{{"@type":"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool","address":"pool{id}","id":"{id}","pool_params":{{"swap_fee":"0.003000000000000000","exit_fee":"0.000000000000000000"}},"future_pool_governor":"24h","total_shares":{{"denom":"gamm/pool/{id}","amount":"100000000000000000000"}},"pool_liquidity":[{{"denom":"{a}","amount":"1000000000000"}},{{"denom":"{b}","amount":"1000000000000"}}],"scaling_factors":[1,1],"scaling_factor_controller":"sfc"}}}}"#
        )),
        _ => None,
    }
}
