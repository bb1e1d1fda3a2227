//! Replays behaviours of spec/pool.qnt into the pool and math packages: single swaps on
//! the real pool objects, estimates and searches of the real simulator over pools it
//! decoded from a node's answers, and the power function.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{coin, from_json, Decimal, Decimal256, Deps, QuerierWrapper, Uint128, Uint256};
use ibcx_interface::periphery::{RouteKey, SwapInfo};
use ibcx_interface::types::{SwapRoute, SwapRoutes};
use ibcx_pool::{query_pools, OsmosisPool, Simulator, WeightedPool};
use serde_json::Value;

use crate::chain::{Chain, Pool, Store};
use crate::market::{routes, spec_wpools};
use crate::coreplay::{n, neg, op_of, st};
use crate::report::{hash_of, Alarm, Sink, Stats};

fn swap_info(d: &str, v: usize, buy: bool) -> Vec<SwapInfo> {
    routes(d, v, buy)
        .into_iter()
        .map(|(f, t, hops)| {
            SwapInfo((
                RouteKey((f, t)),
                SwapRoutes(hops.into_iter().map(|(pool_id, token_denom)| SwapRoute { pool_id, token_denom }).collect()),
            ))
        })
        .collect()
}
fn units(v: &Value) -> Vec<(String, Decimal)> {
    v.as_array().unwrap().iter().map(|u| (st(&u["d"]).to_string(), Decimal::new(Uint128::new(n(&u["u"]))))).collect()
}
fn guarded<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
fn u256(x: Uint256) -> Result<u128, String> {
    Uint128::try_from(x).map(|v| v.u128()).map_err(|e| e.to_string())
}

pub struct Replay<'a> {
    pub sink: &'a dyn Sink,
    pub stats: &'a mut Stats,
    pub name: String,
}

/// one leg of an estimate: denom, amount, other amount, swapped
type RealLeg = (String, u128, u128, bool);

impl<'a> Replay<'a> {
    fn alarm(&mut self, p: &str, k: usize, what: String) {
        self.sink.alarm(Alarm { props: vec![p.into()], trace: self.name.clone(), step: k, what, trail: vec![] });
    }

    pub fn run(&mut self, states: &[Value]) {
        self.stats.traces += 1;
        for k in 1..states.len() {
            let (tag, a) = op_of(&states[k]);
            let l = &states[k]["last"];
            let (ok, slow) = (l["ok"] == true, l["slow"] == true);
            self.stats.step(&tag, ok, if slow { "slow" } else { "no" });
            if slow || tag == "Nop" {
                continue;
            }
            let key = hash_of((a.to_string(), states[k - 1]["w"].to_string()));
            let mut ch = Chain::new(1);
            ch.pools = spec_wpools(&states[k - 1]["w"]);
            let after = spec_wpools(&states[k]["w"]);
            match tag.as_str() {
                "SwapIn" | "SwapOut" => self.swap(k, &tag, &a, l, &ch, &after, key),
                "Pow" => self.pow(k, &a, l, key),
                "Cost" | "Yield" => self.trade(k, tag == "Cost", &a, l, &ch, key),
                "FindCost" | "FindYield" => self.search(k, tag == "FindCost", &a, l, &ch, key),
                t => panic!("unknown operation {t}"),
            }
        }
    }

    fn swap(&mut self, k: usize, tag: &str, a: &Value, l: &Value, ch: &Chain, after: &BTreeMap<u64, Pool>, key: u64) {
        let (id, din, dout, x) = (n(&a["p"]) as u64, st(&a["din"]), st(&a["dout"]), n(&a["n"]));
        let (store, api) = (Store::default(), MockApi::default());
        let deps = Deps { storage: &store, api: &api, querier: QuerierWrapper::new(ch) };
        let js = crate::weighted::pool_json(id, &ch.pools[&id]).unwrap();
        let go = |p: &mut dyn OsmosisPool| -> Result<u128, String> {
            guarded(|| {
                let f = p.get_spread_factor().map_err(|e| e.to_string())?;
                let r = if tag == "SwapIn" {
                    p.swap_exact_amount_in(&deps, coin(x, din), dout.into(), Uint256::zero(), f)
                } else {
                    p.swap_exact_amount_out(&deps, din.into(), Uint256::from(u128::MAX), coin(x, dout), f)
                };
                u256(r.map_err(|e| e.to_string())?)
            })
        };
        // the pool as decoded from a node's answer
        let mut boxed = match query_pools(&deps, vec![id]) {
            Ok(v) if v.len() == 1 => v.into_iter().next().unwrap(),
            Ok(v) => return self.alarm("S01", k, format!("pool {id} was decoded into {} pools", v.len())),
            Err(e) => return self.alarm("S01", k, format!("pool {id} cannot be decoded: {e}")),
        };
        let real = go(&mut *boxed);
        let spec_ok = l["ok"] == true;
        let tol = n(&l["tol"]);
        self.stats.hit("S01", key, || format!("{tag} {x} {din}->{dout} pool {id}: {real:?}"));
        match (&real, spec_ok) {
            (Ok(y), true) if y.abs_diff(n(&l["n"])) > tol => {
                self.alarm("S01", k, format!("{tag} of {x}, {din} for {dout} in pool {js}: {y}, specified {} (within {tol})", st(&l["n"])))
            }
            (Err(e), true) if n(&l["n"]) > tol => {
                self.alarm("S01", k, format!("{tag} of {x}, {din} for {dout} in pool {js} failed ({e}), specified {}", st(&l["n"])))
            }
            (Ok(y), false) if l["must"] == true => {
                self.alarm("S01", k, format!("{tag} of {x}, {din} for {dout} in pool {js} gave {y}, has to fail"))
            }
            _ => {}
        }
        // the reserves move by exactly what came in and went out
        if let (Pool::Weighted { assets, .. }, true) = (&ch.pools[&id], spec_ok) {
            #[derive(serde::Deserialize)]
            struct Wrap {
                pool: WeightedPool,
            }
            let mut p: WeightedPool = match from_json::<Wrap>(js.as_bytes()) {
                Ok(w) => w.pool,
                Err(e) => return self.alarm("S01", k, format!("pool cannot be decoded: {e}")),
            };
            if let Ok(y) = go(&mut p) {
                let (i, o) = if tag == "SwapIn" { (x, y) } else { (y, x) };
                let Pool::Weighted { assets: want, .. } = &after[&id] else { unreachable!() };
                for (j, (d, b, w)) in assets.iter().enumerate() {
                    let exp = if d == din { b + i } else if d == dout { b.saturating_sub(o) } else { *b };
                    let q = &p.pool_assets[j];
                    let got = u256(q.token.amount).unwrap_or(u128::MAX);
                    if &q.token.denom != d || got != exp || got.abs_diff(want[j].1) > tol || q.weight != Uint256::from(*w) {
                        self.alarm("S02", k, format!("{tag} of {x} ({y}), {din} for {dout} in {js}: reserve {j} is {got} {}, specified {exp} {d}", q.token.denom));
                    }
                }
                self.stats.hit("S02", key, || format!("{tag} {x} {din}->{dout} pool {id}: reserves {assets:?} -> {:?}", p.pool_assets.iter().map(|a| a.token.amount.to_string()).collect::<Vec<_>>()));
            }
        }
    }

    fn pow(&mut self, k: usize, a: &Value, l: &Value, key: u64) {
        let (b, p, q) = (n(&a["b"]), n(&a["p"]), n(&a["q"]));
        let e = Uint256::from(p) * Uint256::from(1_000_000_000_000_000_000u128) / Uint256::from(q);
        let real = guarded(|| ibcx_math::pow(Decimal256::new(b.into()), Decimal256::new(e)).map_err(|e| e.to_string()))
            .and_then(|r| u256(r.atomics()));
        self.stats.hit("M01", key, || format!("({b} * 10^-18) ^ ({p}/{q}) = {real:?}"));
        match (&real, l["ok"] == true) {
            (Ok(r), true) if r.abs_diff(n(&l["n"])) > n(&l["tol"]) => {
                self.alarm("M01", k, format!("({b} * 10^-18) ^ ({p}/{q}) = {r} * 10^-18, specified {} within {}", st(&l["n"]), st(&l["tol"])))
            }
            (Err(x), true) => self.alarm("M01", k, format!("({b} * 10^-18) ^ ({p}/{q}) failed ({x}), specified {}", st(&l["n"]))),
            (Ok(r), false) if l["must"] == true => self.alarm("M01", k, format!("({b} * 10^-18) ^ ({p}/{q}) = {r}, has to fail")),
            _ => {}
        }
    }

    fn trade(&mut self, k: usize, buy: bool, a: &Value, l: &Value, ch: &Chain, key: u64) {
        let (store, api) = (Store::default(), MockApi::default());
        let deps = Deps { storage: &store, api: &api, querier: QuerierWrapper::new(ch) };
        let d = st(&a["d"]);
        let info = swap_info(d, n(&a["v"]) as usize, buy);
        let us = units(&a["units"]);
        let pools = match query_pools(&deps, ch.pools.keys().copied().collect()) {
            Ok(v) => v,
            Err(e) => return self.alarm("S01", k, format!("pools cannot be decoded: {e}")),
        };
        let idx = Uint128::new(n(&a["n"]));
        let sim = Simulator::new(&deps, &pools, &info, &us);
        let go = || -> Result<(u128, Vec<RealLeg>), String> {
            guarded(|| {
                if buy {
                    sim.estimate_input_for_index(d, idx)
                        .map(|r| (r.total_input.u128(), r.sim_routes.into_iter().map(|s| (s.amount_out.denom, s.amount_out.amount.u128(), s.sim_amount_in.u128(), s.routes.is_some())).collect()))
                } else {
                    sim.estimate_output_for_index(idx, d)
                        .map(|r| (r.total_output.u128(), r.sim_routes.into_iter().map(|s| (s.amount_in.denom, s.amount_in.amount.u128(), s.sim_amount_out.u128(), s.routes.is_some())).collect()))
                }
            })
        };
        let real = go();
        let again = go();
        let spec_ok = l["ok"] == true;
        let what = format!("{} {idx} index units of {:?} {} {d}, routes {}", if buy { "buying" } else { "selling" }, us, if buy { "with" } else { "for" }, st(&a["v"]));
        self.stats.hit("S02", key, || format!("{what}: {real:?}"));
        if real != again {
            self.alarm("S02", k, format!("{what}: two estimates over the same pools differ: {real:?} then {again:?}"));
        }
        match (&real, spec_ok) {
            (Ok((t, legs)), true) => {
                let (want, tol) = (n(&l["n"]), n(&l["tol"]));
                if t.abs_diff(want) > tol {
                    self.alarm("S02", k, format!("{what}: total {t}, specified {want} within {tol}; legs {legs:?}, specified {}; pools {:?}", l["legs"], ch.pools));
                }
                let sum: u128 = legs.iter().map(|x| x.2).sum();
                let ls = l["legs"].as_array().unwrap();
                let same = legs.len() == ls.len()
                    && legs.iter().zip(ls).all(|(r, s)| r.0 == st(&s["d"]) && r.1 == n(&s["amt"]) && r.3 == (s["swapped"] == true) && r.2.abs_diff(n(&s["n"])) <= tol);
                if sum != *t || !same {
                    self.alarm("S02", k, format!("{what}: legs {legs:?} of {t}, specified {}", l["legs"]));
                }
            }
            (Err(e), true) => self.alarm("S02", k, format!("{what} failed ({e}), specified {}", st(&l["n"]))),
            // the specification refuses: a leg of nothing, an unknown route, a drained pool
            (Ok(_), false) => {}
            _ => {}
        }
    }

    fn search(&mut self, k: usize, buy: bool, a: &Value, l: &Value, ch: &Chain, key: u64) {
        let (store, api) = (Store::default(), MockApi::default());
        let deps = Deps { storage: &store, api: &api, querier: QuerierWrapper::new(ch) };
        let d = st(&a["d"]);
        let info = swap_info(d, n(&a["v"]) as usize, buy);
        let us = units(&a["units"]);
        let pools = match query_pools(&deps, ch.pools.keys().copied().collect()) {
            Ok(v) => v,
            Err(e) => return self.alarm("S01", k, format!("pools cannot be decoded: {e}")),
        };
        let want = n(&a["want"]);
        let seed = if neg(&a["seed"]) { None } else { Some(Uint128::new(n(&a["seed"]))) };
        let sim = Simulator::new(&deps, &pools, &info, &us);
        let real = guarded(|| {
            if buy {
                sim.search_efficient_amount_for_input(coin(want, d), seed).map(|r| (r.est_min_token_out.u128(), r.max_token_in.u128()))
            } else {
                sim.search_efficient_amount_for_output(coin(want, d), seed).map(|r| (r.est_min_token_in.u128(), r.max_token_out.u128()))
            }
        });
        let what = format!("search for {want} {d} from {seed:?} over {us:?}, {}", if buy { "buying" } else { "selling" });
        match &real {
            Ok((idx, tot)) => {
                self.stats.hit("S03", key, || format!("{what}: {real:?}"));
                if *tot > want || want - tot >= 5000 {
                    self.alarm("S03", k, format!("{what}: found {idx} worth {tot}"));
                }
                let est = guarded(|| {
                    if buy {
                        sim.estimate_input_for_index(d, Uint128::new(*idx)).map(|r| r.total_input.u128())
                    } else {
                        sim.estimate_output_for_index(Uint128::new(*idx), d).map(|r| r.total_output.u128())
                    }
                });
                if est != Ok(*tot) {
                    self.alarm("S03", k, format!("{what}: found {idx} worth {tot}, but the estimate for it is {est:?}"));
                }
            }
            Err(e) if l["ok"] == true => self.alarm("S03", k, format!("{what} failed ({e}), specified {} worth {}", st(&l["n"]), st(&l["m"]))),
            _ => {}
        }
    }
}
