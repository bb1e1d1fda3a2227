//! Replays behaviours of spec/peri.qnt into the real periphery, on top of the real
//! vault, over the mini chain's pools.  Minting an exact amount and burning an exact
//! amount are compared digit for digit (within the tolerance of the pool formulas);
//! where the index amount is the contract's choice, the real choice has to lie in the
//! specified bounds and to deliver what was promised.
use std::collections::BTreeMap;

use cosmwasm_std::{Coin, Uint128, Uint256};
use serde_json::{json, Value};

use crate::chain::{Chain, Code};
use crate::coreplay::{amap, boot, call_of, coinmap, coins, n, nz, op_of, snap_diff, snap_real, snap_spec, st, undec, CORE, IDX};
use crate::market::{routes, spec_wpools};
use crate::report::{hash_of, Alarm, Sink, Stats};

const PERI: &str = "peri";
const ONE: u128 = 1_000_000_000_000_000_000;
const MAXERR: u128 = 5000;

fn mul(a: u128, b: u128) -> u128 {
    Uint128::try_from(Uint256::from(a) * Uint256::from(b) / Uint256::from(ONE)).map(|v| v.u128()).unwrap_or(u128::MAX)
}
fn swap_info(d: &str, via: &Value, buy: bool) -> Value {
    let miss = st(&via["miss"]);
    Value::Array(
        routes(d, n(&via["v"]) as usize, buy)
            .into_iter()
            .filter(|(f, t, _)| (if buy { t } else { f }) != miss)
            .map(|(f, t, hops)| json!({ "key": format!("{f},{t}"), "routes": hops.iter().map(|(p, d)| format!("{p},{d}")).collect::<Vec<_>>() }))
            .collect(),
    )
}
fn coin_js(n: &str, d: &str) -> Value {
    json!({ "denom": d, "amount": n })
}

/// sender, funds, message
fn exec_of(tag: &str, a: &Value) -> (String, Vec<Coin>, Value) {
    let f = || coins(&amap(&a["funds"]));
    let s = st(&a["s"]).to_string();
    let info = |buy| swap_info(st(&a["d"]), &a["via"], buy);
    match tag {
        "MintOut" => (s, f(), json!({ "mint_exact_amount_out": { "core_addr": CORE, "output_amount": a["idx"], "input_asset": a["d"], "swap_info": info(true) } })),
        "MintIn" => (s, f(), json!({ "mint_exact_amount_in": { "core_addr": CORE, "input_asset": a["d"], "min_output_amount": a["min"], "swap_info": info(true) } })),
        "BurnIn" => (s, f(), json!({ "burn_exact_amount_in": { "core_addr": CORE, "output_asset": a["d"], "min_output_amount": a["min"], "swap_info": info(false) } })),
        "BurnOut" => (s, f(), json!({ "burn_exact_amount_out": { "core_addr": CORE, "output_asset": coin_js(st(&a["want"]), st(&a["d"])), "swap_info": info(false) } })),
        "Finish" => (s, vec![], json!({ "finish_operation": { "refund_to": a["ref"], "refund_asset": a["d"] } })),
        t => panic!("unknown operation {t}"),
    }
}
fn query_of(tag: &str, a: &Value) -> Value {
    let d = st(&a["d"]);
    match tag {
        "SimMintOut" => json!({ "simulate_mint_exact_amount_out": { "core_addr": CORE, "output_amount": a["idx"], "input_asset": d, "swap_info": swap_info(d, &a["via"], true) } }),
        "SimMintIn" => json!({ "simulate_mint_exact_amount_in": { "core_addr": CORE, "input_asset": coin_js(st(&a["x"]), d), "swap_info": swap_info(d, &a["via"], true) } }),
        "SimBurnIn" => json!({ "simulate_burn_exact_amount_in": { "core_addr": CORE, "input_amount": a["x"], "output_asset": d, "swap_info": swap_info(d, &a["via"], false) } }),
        "SimBurnOut" => json!({ "simulate_burn_exact_amount_out": { "core_addr": CORE, "output_asset": coin_js(st(&a["want"]), d), "swap_info": swap_info(d, &a["via"], false) } }),
        t => panic!("unknown query {t}"),
    }
}
fn prop_of(tag: &str) -> &'static str {
    match tag {
        "MintOut" | "MintIn" => "P02",
        "BurnIn" | "BurnOut" => "P03",
        "Finish" => "P01",
        _ => "P04",
    }
}

pub struct Replay<'a> {
    pub sink: &'a dyn Sink,
    pub stats: &'a mut Stats,
    pub name: String,
}

type Held = BTreeMap<(String, String), u128>;
fn gain(pre: &Held, post: &Held, a: &str, d: &str) -> i128 {
    let k = (a.to_string(), d.to_string());
    post.get(&k).copied().unwrap_or(0) as i128 - pre.get(&k).copied().unwrap_or(0) as i128
}

impl<'a> Replay<'a> {
    fn alarm(&self, p: &str, k: usize, what: String, trail: &[String]) {
        self.sink.alarm(Alarm { props: vec![p.into()], trace: self.name.clone(), step: k, what, trail: trail.to_vec() });
    }

    pub fn run(&mut self, states: &[Value]) {
        self.stats.traces += 1;
        let w0 = &states[0]["w"];
        let Ok(mut ch) = boot(&w0["c"]) else {
            self.stats.diverged += 1;
            return;
        };
        ch.pools = spec_wpools(&w0["ps"]);
        if let Err(e) = ch.instantiate(Code::Periphery, PERI, "deployer", json!({})) {
            return self.alarm("P01", 0, format!("the periphery cannot be instantiated: {e}"), &[]);
        }
        for k in 1..states.len() {
            let (tag, a) = op_of(&states[k]);
            let (before, after, l) = (&states[k - 1]["w"], &states[k]["w"], &states[k]["last"]);
            let (ok, sure, why) = (l["ok"] == true, l["sure"] == true, st(&l["why"]));
            self.stats.step(&tag, ok, if sure { why } else { "unsure" });
            let t0 = std::time::Instant::now();
            let go_on = match tag.as_str() {
                "Nop" => true,
                "Vault" => self.vault(&a, ok, after, &mut ch),
                "Gift" => {
                    if ok {
                        ch.transfer(st(&a["s"]), PERI, st(&a["d"]), n(&a["amt"])).expect("gift");
                    }
                    true
                }
                "Market" | "Pricing" => true,
                // the power series converges too slowly to be followed
                _ if why == "slow" => true,
                t if t.starts_with("Sim") => {
                    self.simulate(k, t, &a, l, before, &ch);
                    true
                }
                t => self.execute(k, t, &a, l, before, after, &mut ch),
            };
            if std::env::var("MBT_TIME").is_ok() {
                eprintln!("TIME {} {tag} {}", t0.elapsed().as_micros(), if sure { why } else { "unsure" });
            }
            if !go_on {
                self.stats.diverged += 1;
                if std::env::var("MBT_DEBUG").is_ok() {
                    eprintln!("{} stops at step {k}: {tag} {a} spec {ok} {sure} {why} real {:?}", self.name, ch.trail.last());
                }
                return;
            }
            ch.pools = spec_wpools(&after["ps"]);
        }
    }

    /// the vault's own behaviour is decided elsewhere: here it only has to be followed
    fn vault(&mut self, op: &Value, ok: bool, after: &Value, ch: &mut Chain) -> bool {
        let (tag, a) = (st(&op["tag"]), &op["value"]);
        match tag {
            "Wait" => {
                ch.now += n(a) as u64;
                ch.height += 1;
                return true;
            }
            "SetSkew" => {
                ch.skew = n(a);
                return true;
            }
            _ => {}
        }
        let c = call_of(tag, a).expect("a vault call");
        ch.execute(CORE, &c.sender, &c.funds, &c.msg).is_ok() == ok && self.differs(after, ch).is_empty()
    }

    /// everything observable about vault and balances, except the pools' own purse
    fn differs(&mut self, after: &Value, ch: &Chain) -> Vec<(String, String)> {
        let c = &after["c"]["c"];
        let at = if c["sf"] == true && c["sfFreeze"] != true { Some(n(&c["sfLast"]) as u64) } else { None };
        self.stats.compared += 1;
        match snap_real(ch, CORE, at) {
            Ok(r) => snap_diff(&snap_spec(&after["c"]), &r).into_iter().filter(|(k, _)| !k.starts_with("bal.pool.")).collect(),
            Err(e) => vec![("query".into(), e)],
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn execute(&mut self, k: usize, tag: &str, a: &Value, l: &Value, before: &Value, after: &Value, ch: &mut Chain) -> bool {
        let (ok, sure, why, o, ev) = (l["ok"] == true, l["sure"] == true, st(&l["why"]), &l["out"], &l["ev"]);
        let (sender, funds, msg) = exec_of(tag, a);
        let pre = ch.clone();
        let got = ch.execute(PERI, &sender, &funds, &msg);
        let (swaps, trail) = (ch.swaps.clone(), ch.trail.clone());
        let p = prop_of(tag);
        let what = format!("{tag} {a}");
        let key = hash_of((what.as_str(), before.to_string()));
        let d = st(&a["d"]);
        let tol = n(&o["tol"]);

        if sure {
            self.stats.hit(p, key, || format!("{what} -> {}", if ok { "accepted" } else { why }));
        }
        if got.is_ok() {
            if tag != "Finish" {
                self.stats.hit("P01", key, || format!("{what} -> accepted"));
            }
            self.promises(k, tag, a, o, &pre, ch, &funds);
        } else if pre.bank != ch.bank || pre.stores != ch.stores {
            panic!("a refused call changed state");
        }
        // the limits sent along, also when the trade failed because of them
        let choice = matches!(tag, "MintIn" | "BurnOut");
        let real_idx = if tag == "BurnOut" && sender.starts_with("coll") {
            // its own fee comes back to a collector: only the supply tells
            let gone = pre.supply_of(IDX) - ch.supply_of(IDX);
            Some(if gone == n(&o["net"]) { n(&o["idx"]) } else { gone })
        } else {
            self.amount(tag, &pre, ch)
        };
        let same_idx = !choice || real_idx.map(|m| m == n(&o["idx"])).unwrap_or(false);
        if ok && same_idx && tag != "Finish" {
            self.limits(k, tag, &what, o, before, &swaps, got.is_ok(), key, &trail);
        }
        match (&got, ok) {
            (Ok(()), false) => {
                if sure {
                    self.alarm(p, k, format!("{what} succeeded, the specification refuses it ({why})"), &trail);
                    return false;
                }
                // not decided by the specification: only the promises count, go on as if it had not happened
                *ch = pre;
                true
            }
            (Err(e), true) => {
                // a limit missed by no more than the pool formulas may differ is no failure
                let near = tol > 1 && e.starts_with("swap: ");
                if sure && !near {
                    self.alarm(p, k, format!("{what} failed ({e}), the specification accepts it"), &trail);
                }
                false
            }
            (Err(_), false) => true,
            (Ok(()), true) => {
                let m = real_idx.unwrap_or(0);
                if choice {
                    let (lo, hi) = (n(&o["lo"]), n(&o["hi"]));
                    if tag == "MintIn" && (m < lo || m > hi) {
                        self.alarm(p, k, format!("{what}: {m} index tokens minted, specified {lo} to {hi}"), &trail);
                        return false;
                    }
                    if tag == "BurnOut" {
                        let got = gain(&pre.bank, &ch.bank, &sender, d) - pre.bal(PERI, d) as i128;
                        if d != IDX && pre.skew == 100 && (got < lo as i128 || got > hi as i128) {
                            self.alarm(p, k, format!("{what}: {got}{d} paid out, specified {lo} to {hi}"), &trail);
                            return false;
                        }
                    }
                    if !same_idx {
                        return false;
                    }
                }
                if !ev.as_array().unwrap().is_empty() {
                    let came = |x: &str| if sender.starts_with("coll") { None } else { Some(gain(&pre.bank, &ch.bank, &sender, x)) };
                    let bad = crate::events::faults(ev, ch, |_, _| None, came);
                    self.stats.hit("E01", key, || format!("{what}: {:?}", ch.said.first()));
                    if !bad.is_empty() {
                        self.alarm("E01", k, format!("the event of {what}: {} ({:?})", bad.join(", "), ch.said.first()), &trail);
                    }
                }
                let diff = self.differs(after, ch);
                let mut follow = diff.is_empty();
                for (f, t) in &diff {
                    let q = if f.starts_with("bal.peri.") { "P01" } else { p };
                    let want = spec_bal(after, &sender, d);
                    if *f == format!("bal.{sender}.{d}") && ch.bal(&sender, d).abs_diff(want) <= tol * 100 / pre.skew.min(100) {
                        follow = false;
                        continue;
                    }
                    self.alarm(q, k, format!("after {what}: {f}: {t}"), &trail);
                    follow = false;
                }
                follow
            }
        }
    }

    /// index tokens minted or burned (before fees), as the vault was told
    fn amount(&self, tag: &str, pre: &Chain, ch: &Chain) -> Option<u128> {
        match tag {
            "MintIn" => Some(ch.supply_of(IDX).checked_sub(pre.supply_of(IDX))?),
            "BurnOut" => {
                let collected: u128 = ["coll0", "coll1"].iter().map(|c| ch.bal(c, IDX).saturating_sub(pre.bal(c, IDX))).sum();
                Some(pre.supply_of(IDX).checked_sub(ch.supply_of(IDX))? + collected)
            }
            _ => None,
        }
    }

    /// what every accepted operation has to keep, whatever amount the contract chose
    #[allow(clippy::too_many_arguments)]
    fn promises(&mut self, k: usize, tag: &str, a: &Value, o: &Value, pre: &Chain, ch: &Chain, funds: &[Coin]) {
        let s = st(&a["s"]);
        let d = st(&a["d"]);
        let (b0, b1) = (&pre.bank, &ch.bank);
        let p = prop_of(tag);
        let what = format!("{tag} {a}");
        let gave: BTreeMap<String, u128> = funds.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect();
        for ((who, x), _) in b0.iter().chain(b1.iter()) {
            let g = gain(b0, b1, who, x);
            match who.as_str() {
                "pool" => {}
                "core" | "coll0" | "coll1" => {}
                PERI => {
                    if g > 0 {
                        self.alarm("P01", k, format!("{what}: the periphery kept {g}{x}"), &ch.trail);
                    }
                    if g < 0 && tag == "Finish" && s != PERI {
                        self.alarm("P01", k, format!("{what}: {s} took {}{x} out of the periphery", -g), &ch.trail);
                    }
                }
                w if w == s => {
                    let least = -(gave.get(x).copied().unwrap_or(0) as i128);
                    if g < least {
                        self.alarm(p, k, format!("{what}: cost the sender {}{x}", -g), &ch.trail);
                    }
                }
                w if tag == "Finish" && w == st(&a["ref"]) => {}
                w => {
                    if g != 0 {
                        self.alarm(p, k, format!("{what}: changed {w}'s balance by {g}{x}"), &ch.trail);
                    }
                }
            }
        }
        let mine = |x: &str| gain(b0, b1, s, x);
        let collector = s.starts_with("coll");
        match tag {
            "MintIn" => {
                let min = n(&a["min"]) as i128;
                if mine(IDX) < min {
                    self.alarm(p, k, format!("{what}: delivered {} index tokens", mine(IDX)), &ch.trail);
                }
            }
            "MintOut" => {
                let fee = fee_of(pre, "mint_fee");
                let idx = n(&a["idx"]);
                let net = idx - fee.map(|f| mul(f, idx).max(1)).unwrap_or(0);
                if !collector && mine(IDX) != net as i128 {
                    self.alarm(p, k, format!("{what}: delivered {} index tokens, not {net}", mine(IDX)), &ch.trail);
                }
            }
            "BurnIn" => {
                let min = n(&a["min"]) as i128;
                // each swap's share of the minimum is rounded down
                let legs = o["legs"].as_array().map(|x| x.len()).unwrap_or(8).max(4) as i128;
                if d != IDX && mine(d) + legs < min {
                    self.alarm(p, k, format!("{what}: paid out {}{d}", mine(d)), &ch.trail);
                }
            }
            "BurnOut" => {
                // at most 5000 and three index units' worth below what was wanted
                let burned = gave.get(IDX).copied().unwrap_or(0) as i128 - (gave.get(IDX).copied().unwrap_or(0) as i128 + mine(IDX)).max(0);
                let want = n(&a["want"]) as i128;
                if d != IDX && !collector && pre.skew == 100 && burned > 0 && mine(d) + MAXERR as i128 + 3 * (mine(d) / burned + 1) + want / 1000 + 20 < want {
                    self.alarm(p, k, format!("{what}: paid out {}{d}", mine(d)), &ch.trail);
                }
            }
            _ => {}
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn limits(&mut self, k: usize, tag: &str, what: &str, o: &Value, before: &Value, swaps: &[crate::chain::Swap], done: bool, key: u64, trail: &[String]) {
        let buy = tag.starts_with("Mint");
        let legs: Vec<(&Value, u128)> = o["legs"]
            .as_array()
            .unwrap()
            .iter()
            .zip(o["lims"].as_array().unwrap())
            .filter(|(l, _)| l["swapped"] == true)
            .map(|(l, m)| (l, n(m)))
            .collect();
        if !done && swaps.is_empty() {
            return;
        }
        let _ = before;
        let tol = n(&o["tol"]);
        let tot = n(&o["tot"]).max(1);
        self.stats.hit("P05", key, || format!("{what}: {swaps:?}"));
        if done && swaps.len() != legs.len() {
            return self.alarm("P05", k, format!("{what}: swaps {swaps:?}, specified {}", o["legs"]), trail);
        }
        for (s, (l, lim)) in swaps.iter().zip(&legs) {
            // the limit scales with the simulated amounts, which may be off by tol
            let slack = 2 + mul((lim + 1).saturating_mul(4), (tol as f64 / tot as f64 * ONE as f64) as u128) + if tol > 1 { tol * 4 } else { 0 };
            if s.exact_in == buy || s.denom != st(&l["d"]) || s.amount != n(&l["amt"]) || s.limit.abs_diff(*lim) > slack {
                self.alarm("P05", k, format!("{what}: swap {s:?}, specified limit {lim} (within {slack}) for {l}"), trail);
            }
        }
    }

    fn simulate(&mut self, k: usize, tag: &str, a: &Value, l: &Value, before: &Value, ch: &Chain) {
        let (ok, sure, o) = (l["ok"] == true, l["sure"] == true, &l["out"]);
        self.stats.queries += 1;
        let real = ch.query(PERI, &query_of(tag, a));
        let what = format!("{tag} {a}");
        let key = hash_of((what.as_str(), before.to_string()));
        let d = st(&a["d"]);
        let r = match (&real, ok) {
            (Err(e), true) => return self.alarm("P04", k, format!("{what} failed ({e}), specified {o}"), &[]),
            (Ok(r), false) => {
                if sure {
                    self.alarm("P04", k, format!("{what} answered {r}, has to fail ({})", st(&l["why"])), &[]);
                }
                return;
            }
            (Err(_), false) => return,
            (Ok(r), true) => r,
        };
        self.stats.hit("P04", key, || format!("{what}: {r}"));
        let buy = tag.starts_with("SimMint");
        let (amt, parts, swap) = if buy { ("mint_amount", "mint_spend_amount", "swap_result_amount") } else { ("burn_amount", "burn_redeem_amount", "swap_result_amount") };
        let (x, spend, tot) = (n(&r[amt]), nz(coinmap(&r[parts])), n(&r[swap]["amount"]));
        let (net, tol) = (n(&o["net"]), n(&o["tol"]));
        let units: BTreeMap<String, u128> = o["units"].as_array().unwrap().iter().map(|u| (st(&u["d"]).to_string(), n(&u["u"]))).collect();
        let rate = fee_of(ch, if buy { "mint_fee" } else { "burn_fee" }).unwrap_or(0);
        let bad = |m: String| self.alarm("P04", k, format!("{what}: {m}; answer {r}, specified {o}"), &[]);
        if st(&r[swap]["denom"]) != d {
            bad(format!("priced in {}", r[swap]["denom"]));
        }
        if tag == "SimMintOut" || tag == "SimBurnIn" {
            if x.abs_diff(net) > 1 {
                bad(format!("amount {x}, not {net}"));
            }
            if spend != nz(amap(&o["spend"])) {
                bad("wrong basket".into());
            }
            if tot.abs_diff(n(&o["tot"])) > tol {
                bad(format!("total {tot}, not {} within {tol}", n(&o["tot"])));
            }
            self.follow(k, tag, a, x, tot, tol, ch);
        } else {
            let want = n(&a[if buy { "x" } else { "want" }]);
            if tot > want || want - tot >= MAXERR {
                bad(format!("total {tot} for {want}"));
            }
            // the index amount behind the basket it lists: floor(unit * i)
            let (mut lo, mut hi) = (n(&o["lo"]), n(&o["hi"]));
            for (d, u) in &units {
                let s = spend.get(d).copied().unwrap_or(0);
                let up = |v: u128| Uint128::try_from((Uint256::from(v) * Uint256::from(ONE) + Uint256::from(*u) - Uint256::from(1u128)) / Uint256::from(*u)).map(|v| v.u128()).unwrap_or(u128::MAX);
                if *u > 0 {
                    lo = lo.max(up(s));
                    hi = hi.min(up(s + 1).saturating_sub(1));
                }
            }
            if lo > hi {
                bad(format!("the basket {spend:?} belongs to no amount between {} and {}", n(&o["lo"]), n(&o["hi"])));
            } else if buy {
                if x > mul(hi, ONE - rate) + 1 || x + 2 < mul(lo, ONE - rate) {
                    bad(format!("{x} index tokens delivered for {lo} to {hi} minted"));
                }
            } else {
                // x less its fee is what is redeemed
                let keeps = x - mul(x, rate);
                if keeps > hi + 2 || keeps + 2 < lo {
                    bad(format!("{x} index tokens burned redeem {keeps}, not {lo} to {hi}"));
                }
            }
        }
    }

    /// doing what was just simulated: same amounts
    #[allow(clippy::too_many_arguments)]
    fn follow(&mut self, k: usize, tag: &str, a: &Value, x: u128, tot: u128, tol: u128, ch: &Chain) {
        let mut f = ch.clone();
        f.skew = 100;
        let d = st(&a["d"]);
        let mut b = a.clone();
        let Some(who) = ["alice", "bobby", "gov0"].into_iter().find(|w| if tag == "SimMintOut" { tot < f.bal(w, d) / 2 } else { f.bal(w, IDX) >= n(&a["x"]) }) else { return };
        b["s"] = json!(who);
        let (op, funds) = if tag == "SimMintOut" {
            ("MintOut", Coin { denom: d.into(), amount: Uint128::new(tot + tot / 20 + tol + 100) })
        } else {
            b["min"] = json!("0");
            ("BurnIn", Coin { denom: IDX.into(), amount: Uint128::new(n(&a["x"])) })
        };
        b["funds"] = json!([]);
        let (s, _, msg) = exec_of(op, &b);
        if funds.amount.is_zero() || f.execute(PERI, &s, &[funds], &msg).is_err() {
            return;
        }
        self.stats.probes += 1;
        let lost = ch.bal(PERI, d);
        if op == "MintOut" {
            let (i, c) = (gain(&ch.bank, &f.bank, who, IDX), lost as i128 - gain(&ch.bank, &f.bank, who, d));
            if (i - x as i128).abs() > 1 || (c - tot as i128).unsigned_abs() > 2 * tol + 1 {
                self.alarm("P04", k, format!("{tag} {a} told {x} for {tot}{d}, executing it gave {i} for {c}"), &f.trail);
            }
        } else {
            let c = gain(&ch.bank, &f.bank, who, d) - lost as i128;
            if (c - tot as i128).unsigned_abs() > 2 * tol + 1 {
                self.alarm("P04", k, format!("{tag} {a} told {tot}{d}, executing it gave {c}"), &f.trail);
            }
        }
    }
}

fn spec_bal(w: &Value, who: &str, d: &str) -> u128 {
    w["c"]["bank"]
        .as_array()
        .unwrap()
        .iter()
        .find(|e| st(&e[0][0]) == who && st(&e[0][1]) == d)
        .map(|e| n(&e[1]))
        .unwrap_or(0)
}
fn fee_of(ch: &Chain, f: &str) -> Option<u128> {
    let v = ch.query(CORE, &json!({ "get_fee": { "time": null } })).ok()?;
    if v[f].is_null() {
        None
    } else {
        Some(undec(&v[f]))
    }
}
