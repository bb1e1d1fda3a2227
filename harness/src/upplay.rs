//! Replays behaviours of spec/upgrade.qnt: migrations of the three real contracts, each
//! holding some state, from whatever version an earlier deployment recorded.
use serde_json::{json, Value};

use crate::chain::{Chain, Code, Store};
use crate::coreplay::{n, neg, op_of, st};
use crate::report::{hash_of, Alarm, Sink, Stats};

const KEY: &[u8] = b"contract_info";
const CODES: [(&str, Code); 3] = [("core", Code::Core), ("airdrop", Code::Airdrop), ("peri", Code::Periphery)];
const PRES: [&str; 16] = ["0", "2", "10", "alpha", "alpha.1", "alpha.2", "alpha.10", "alpha.beta", "beta", "beta.2", "beta.11", "rc.1", "rc.1+5", "", "+7", "+build.2"];
const SPEC: [i64; 3] = [0, 1, 2];

fn info(s: &Store) -> Option<(String, String)> {
    let v: Value = serde_json::from_slice(s.0.get(KEY)?).ok()?;
    Some((v["contract"].as_str()?.into(), v["version"].as_str()?.into()))
}
fn rest(s: &Store) -> Store {
    let mut s = s.clone();
    s.0.remove(KEY);
    s
}

pub struct Replay<'a> {
    pub sink: &'a dyn Sink,
    pub stats: &'a mut Stats,
    pub name: String,
}

impl<'a> Replay<'a> {
    fn alarm(&self, k: usize, what: String) {
        self.sink.alarm(Alarm { props: vec!["U01".into()], trace: self.name.clone(), step: k, what, trail: vec![] });
    }

    pub fn run(&mut self, states: &[Value]) {
        self.stats.traces += 1;
        let mut ch = Chain::new(1_700_000_000);
        for (a, d) in [("alice", "uosmo"), ("core", "uosmo"), ("airdrop", "uosmo")] {
            ch.set_bal(a, d, 1_000_000);
        }
        let core = json!({
            "gov": "gov0", "fee": { "collector": "coll0", "mint_fee": "0.01", "burn_fee": null, "streaming_fee": { "rate": "0.000000001", "freeze": false } },
            "index_denom": "uibcx", "index_units": [["uosmo", "1.5"]], "reserve_denom": "uosmo" });
        let mut own = vec![];
        for (a, c) in CODES {
            if let Err(e) = ch.instantiate(c, a, "deployer", if a == "core" { core.clone() } else { json!({}) }) {
                return self.alarm(0, format!("{a} cannot be instantiated: {e}"));
            }
            match info(&ch.stores[a].1) {
                Some(x) => own.push((a, x.0, x.1)),
                None => return self.alarm(0, format!("{a} records no version")),
            }
        }
        // something to lose
        let mut setup = vec![];
        let root = "ab".repeat(32);
        let f = [cosmwasm_std::Coin { denom: "uosmo".into(), amount: 500u128.into() }];
        setup.push(ch.execute("airdrop", "alice", &f, &json!({ "register": { "open": { "merkle_root": root, "denom": "uosmo", "label": "a" } } })));
        setup.push(ch.execute("core", "alice", &f, &json!({ "mint": { "amount": "100", "receiver": null, "refund_to": null } })));
        setup.push(ch.execute("core", "gov0", &[], &json!({ "gov": { "pause": { "expires_at": null } } })));

        if let Some(Err(e)) = setup.iter().find(|r| r.is_err()) {
            eprintln!("note: {e}");
        }

        for k in 1..states.len() {
            let (tag, a) = op_of(&states[k]);
            let (ok, why) = (states[k]["last"]["ok"] == true, st(&states[k]["last"]["why"]));
            self.stats.step(&tag, ok, why);
            if tag == "Nop" {
                continue;
            }
            let c = st(&a["c"]);
            let (_, name, version) = own.iter().find(|x| x.0 == c).unwrap().clone();
            let cur: Vec<i64> = version.split('.').map(|x| x.parse().unwrap_or(0)).collect();
            if cur.len() != 3 {
                return self.alarm(k, format!("{c} calls itself version {version}"));
            }
            if tag == "Left" {
                let v = &a["v"];
                let text = if st(&v["bad"]) != "" {
                    st(&v["bad"]).to_string()
                } else {
                    let x: Vec<i64> = ["ma", "mi", "pa"].iter().zip(SPEC.iter().zip(&cur)).map(|(f, (s, c))| n(&v[*f]) as i64 - s + c).collect();
                    if x.iter().any(|x| *x < 0) {
                        self.stats.diverged += 1;
                        return;
                    }
                    let p = PRES[n(&v["pre"]) as usize];
                    format!("{}.{}.{}{}{}", x[0], x[1], x[2], if p.is_empty() || p.starts_with('+') { "" } else { "-" }, p)
                };
                let s = &mut ch.stores.get_mut(c).unwrap().1;
                let other = own.iter().find(|x| x.0 != c).unwrap().1.clone();
                let called = match if neg(&a["name"]) { 99 } else { n(&a["name"]) } {
                    0 => name,
                    1 => other,
                    2 => name.to_uppercase(),
                    3 => format!("crates.io:{name}"),
                    4 => format!("{name}-v2"),
                    5 => name[..name.len() - 1].to_string(),
                    _ => {
                        s.0.remove(KEY);
                        continue;
                    }
                };
                s.0.insert(KEY.to_vec(), serde_json::to_vec(&json!({ "contract": called, "version": text })).unwrap());
                continue;
            }
            let force = if neg(&a["force"]) { Value::Null } else { json!(n(&a["force"]) == 1) };
            let pre = ch.clone();
            let from = info(&pre.stores[c].1);
            let msg = if force.is_null() && k % 2 == 0 { json!({}) } else { json!({ "force": force }) };
            let got = ch.migrate(c, msg);
            let what = format!("migrating {c} from {from:?} (force {force}) to {name} {version}");
            self.stats.compared += 1;
            self.stats.hit("U01", hash_of(what.as_str()), || what.clone());
            match (&got, ok) {
                (Ok(()), false) => self.alarm(k, format!("{what} succeeded, has to fail ({why})")),
                (Err(e), true) => self.alarm(k, format!("{what} failed ({e}), specified to succeed")),
                _ => {}
            }
            if got.is_ok() {
                if info(&ch.stores[c].1) != Some((name.clone(), version.clone())) {
                    self.alarm(k, format!("{what}: recorded {:?}", info(&ch.stores[c].1)));
                }
                if rest(&ch.stores[c].1) != rest(&pre.stores[c].1) {
                    self.alarm(k, format!("{what}: changed the contract's state"));
                }
            } else if ch.stores != pre.stores {
                self.alarm(k, format!("{what}: failed but changed the contract's state"));
            }
            if ch.bank != pre.bank || pre.stores.iter().any(|(a, s)| a != c && ch.stores[a] != *s) {
                self.alarm(k, format!("{what}: touched something else"));
            }
            if got.is_ok() != ok {
                return;
            }
        }
    }
}
