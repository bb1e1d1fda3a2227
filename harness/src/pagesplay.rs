//! Replays behaviours of spec/pages.qnt: the paginated listings of the vault and of the
//! airdrop contract, filled through the real entry points.
use std::sync::OnceLock;

use cosmwasm_std::Coin;
use serde_json::{json, Value};

use crate::airplay::{pubkey, sign, signer_addr, tree, Tree, AIR};
use crate::chain::{Chain, Code};
use crate::coreplay::{n, neg, op_of, st, CORE};
use crate::report::{hash_of, Alarm, Sink, Stats};

/// RANKS strings in ascending order
fn names() -> &'static Vec<String> {
    static T: OnceLock<Vec<String>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<String> = ["", " ", "!", "-", "/", "//", "0", "00", "01", "1", "10", "2", "A", "AB", "Z", "_", "a", "a ", "a/", "a/b", "a/b/c", "aA",
            "aa", "aaa", "aab", "ab", "abc", "b", "ba", "factory/osmo1aaaa/uibcx", "factory/osmo1aaaa/uibcx2", "factory/osmo1bbbb/a", "gamm/pool/1",
            "gamm/pool/10", "gamm/pool/2", "hash", "hash0", "ibc/0471F1C4", "ibc/27394FB0", "ibc/D1542AA8", "l", "osmo", "uatom", "uatom2", "uion",
            "ujuno", "uosmo", "uosmoo", "v", "w", "x", "xy", "y", "z", "zz", "zzz", "~", "~~", "\u{80}", "é", "中", "中文", "\u{1f600}"]
            .iter().map(|s| s.to_string()).collect();
        v.push("k".repeat(255));
        v.sort();
        assert_eq!(v.len(), 64);
        v
    })
}
const CREATORS: [&str; 4] = ["ali", "alice", "bob", "zoe0"];

fn claims_tree() -> &'static Tree {
    static T: OnceLock<Tree> = OnceLock::new();
    T.get_or_init(|| tree(&names().iter().map(|k| (k.as_str(), 1)).collect::<Vec<_>>()))
}

fn list(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| n(x) as usize).collect()
}

/// the single entry of an enum-like object, or the object itself
fn inner(v: &Value) -> &Value {
    v.as_object().and_then(|o| o.values().next()).unwrap_or(v)
}

pub struct Replay<'a> {
    pub sink: &'a dyn Sink,
    pub stats: &'a mut Stats,
    pub name: String,
}

impl<'a> Replay<'a> {
    fn alarm(&self, id: &str, k: usize, what: String) {
        self.sink.alarm(Alarm { props: vec![id.into()], trace: self.name.clone(), step: k, what, trail: vec![] });
    }

    pub fn run(&mut self, states: &[Value]) {
        self.stats.traces += 1;
        let mut ch = Chain::new(1_700_000_000);
        for c in CREATORS {
            ch.set_bal(c, "uosmo", 1_000_000);
        }
        let core = json!({
            "gov": "gov0", "fee": { "collector": "coll0", "mint_fee": null, "burn_fee": null, "streaming_fee": null },
            "index_denom": "uibcx", "index_units": [["uosmo", "1.5"]], "reserve_denom": "uosmo" });
        for (id, code, a, m) in [("C17", Code::Core, CORE, core), ("A07", Code::Airdrop, AIR, json!({}))] {
            if let Err(e) = ch.instantiate(code, a, "deployer", m) {
                return self.alarm(id, 0, format!("{a} cannot be instantiated: {e}"));
            }
        }
        // one side deviating must not hide the other
        let (mut core_ok, mut air_ok) = (true, true);
        let mut drops: Vec<Value> = vec![];
        for k in 1..states.len() {
            let (tag, a) = op_of(&states[k]);
            let (ok, why) = (states[k]["last"]["ok"] == true, st(&states[k]["last"]["why"]));
            let out = list(&states[k]["last"]["out"]);
            self.stats.step(&tag, ok, why);
            match tag.as_str() {
                "AddTrades" => {
                    for o in list(&a["outs"]) {
                        let m = json!({ "gov": { "update_trade_info": { "denom": names()[n(&a["i"]) as usize], "cooldown": k, "max_trade_amount": o.to_string(),
                            "routes": [{ "pool_id": 7, "token_denom": names()[o] }] } } });
                        if let Err(e) = ch.execute(CORE, "gov0", &[], &m) {
                            if core_ok {
                                self.alarm("C17", k, format!("{m} failed ({e})"));
                            }
                            core_ok = false;
                        }
                    }
                }
                "AddDrops" => {
                    for (d, want) in a.as_array().unwrap().iter().zip(&out) {
                        let label = if neg(&d["label"]) { Value::Null } else { json!(names()[n(&d["label"]) as usize]) };
                        let (c, bearer, root) = (CREATORS[n(&d["creator"]) as usize], d["bearer"] == true, &claims_tree().root);
                        let m = if bearer {
                            json!({ "bearer": { "merkle_root": root, "denom": "uosmo", "label": label, "signer_pub": hex::encode(pubkey("k0")), "signer_sig": sign("k0", &signer_addr("k0"), 0) } })
                        } else {
                            json!({ "open": { "merkle_root": root, "denom": "uosmo", "label": label } })
                        };
                        let f = [Coin { denom: "uosmo".into(), amount: 64u128.into() }];
                        let got = ch.execute(AIR, c, &f, &json!({ "register": m }));
                        if got.is_ok() != (*want == 1) {
                            if air_ok {
                                self.alarm("A07", k, format!("registering {d}: {got:?}, specified {}", if *want == 1 { "to succeed" } else { "to fail" }));
                            }
                            air_ok = false;
                        }
                    }
                    drops = states[k]["w"]["drops"].as_array().unwrap().clone();
                }
                "AddClaims" => {
                    for (key, want) in list(&a["keys"]).into_iter().zip(&out) {
                        let h = &names()[key];
                        let m = json!({ "claim": { "bearer": { "airdrop": { "id": n(&a["drop"]) as u64 }, "amount": "1", "account": "carol", "claim_hash": h,
                            "claim_sign": sign("k0", &format!("{h}/carol/1"), 0), "merkle_proof": claims_tree().proofs[key] } } });
                        let got = ch.execute(AIR, "carol", &[], &m);
                        if got.is_ok() != (*want == 1) {
                            if air_ok {
                                self.alarm("A07", k, format!("claiming {h:?} of {}: {got:?}, specified {}", st(&a["drop"]), if *want == 1 { "to succeed" } else { "to fail" }));
                            }
                            air_ok = false;
                        }
                    }
                }
                "Ask" => self.ask(k, &a, ok, why, &out, &drops, &ch, core_ok, air_ok),
                _ => {}
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn ask(&mut self, k: usize, a: &Value, ok: bool, why: &str, out: &[usize], drops: &[Value], ch: &Chain, core_ok: bool, air_ok: bool) {
        let kind = st(&a["kind"]);
        let arg = n(&a["arg"]) as usize;
        let start = if neg(&a["start"]) { None } else { Some(n(&a["start"]) as usize) };
        let limit = if neg(&a["lim"]) { Value::Null } else { json!(n(&a["lim"]) as u64) };
        let order = [Value::Null, json!("asc"), json!("desc")][n(&a["ord"]) as usize].clone();
        let label = |x: usize| format!("{}/{}", CREATORS[x / 64], names()[x % 64]);
        let after = match (start, kind) {
            (None, _) => Value::Null,
            (Some(x), "trades" | "claims") => json!(names()[x]),
            (Some(x), "byLabel" | "labels") => json!(label(x)),
            (Some(x), _) => json!(x),
        };
        let (id, who) = if kind == "trades" { ("C17", CORE) } else { ("A07", AIR) };
        if !(if id == "C17" { core_ok } else { air_ok }) {
            return;
        }
        let page = |mut o: Value| {
            let m = o.as_object_mut().unwrap();
            m.insert("start_after".into(), after.clone());
            m.insert("limit".into(), limit.clone());
            m.insert("order".into(), order.clone());
            o
        };
        let msg = match kind {
            "trades" => json!({ "list_trade_info": page(json!({ "denom_in": names()[arg] })) }),
            "claims" => json!({ "list_claims": page(json!({ "airdrop": { "id": arg } })) }),
            "labels" => json!({ "list_labels": page(json!({})) }),
            "byId" => json!({ "list_airdrops": { "option": { "by_i_d": page(json!({})) } } }),
            "byLabel" => json!({ "list_airdrops": { "option": { "by_label": page(json!({})) } } }),
            "byType" => json!({ "list_airdrops": { "option": { "by_type": page(json!({ "type": if arg == 1 { "bearer" } else { "open" } })) } } }),
            _ => json!({ "list_airdrops": { "option": { "by_creator": page(json!({ "creator": CREATORS[arg] })) } } }),
        };
        self.stats.pages += 1;
        self.stats.compared += 1;
        self.stats.hit(if id == "C17" { "C17" } else { "A07" }, hash_of((msg.to_string(), out)), || format!("{msg} -> {} entries{}", out.len(), if ok { "" } else { " refused" }));
        let got = match (ch.query(who, &msg), ok) {
            (Ok(v), true) => v,
            (Ok(v), false) => return self.alarm(id, k, format!("{msg} is answered ({} entries), specified to be refused ({why})", v.as_array().map_or(0, |x| x.len()))),
            (Err(e), true) => return self.alarm(id, k, format!("{msg} fails: {e}")),
            (Err(_), false) => return,
        };
        // every entry is the entry that the single query gives
        let want: Vec<Value> = out
            .iter()
            .map(|x| match kind {
                "trades" => ch.query(who, &json!({ "get_trade_info": { "denom_in": names()[arg], "denom_out": names()[*x] } })).map(|v| v["trade_info"].clone()),
                "claims" => ch.query(who, &json!({ "get_claim": { "airdrop": { "id": arg }, "claim_key": names()[*x] } })),
                "labels" => {
                    let d = &drops[*x];
                    ch.query(who, &json!({ "get_label": { "label": label(64 * n(&d["creator"]) as usize + n(&d["label"]) as usize) } }))
                }
                _ => ch.query(who, &json!({ "get_airdrop": { "id": { "id": x } } })),
            })
            .map(|v| v.unwrap_or(Value::Null))
            .collect();
        // ... and is about the key it has to be about
        let keyed = |x: usize, v: &Value| match kind {
            "trades" => v["denom_in"] == names()[arg].as_str() && v["denom_out"] == names()[x].as_str(),
            "claims" => v["id"] == json!(arg) && v["claim_key"] == names()[x].as_str(),
            "labels" => v["airdrop_id"] == json!(x),
            _ => inner(v)["id"] == json!(x),
        };
        let none = vec![];
        let real = got.as_array().unwrap_or(&none);
        if *real != want || out.iter().zip(real).any(|(x, v)| !keyed(*x, v)) {
            self.alarm(id, k, format!("{msg} answers {got}, specified {} (keys {out:?})", json!(want)));
        }
    }
}
