//! Replays behaviours of spec/airdrop.qnt into the real airdrop contract: real Merkle
//! trees, real secp256k1 signatures.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use bech32::ToBase32;
use k256::ecdsa::signature::hazmat::PrehashSigner;
use k256::ecdsa::{Signature, SigningKey};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

use crate::chain::{Chain, Code};
use crate::coreplay::{amap, coins, n, op_of, snap_diff, st, Snap};
use crate::report::{hash_of, Alarm, Sink, Stats};

pub const AIR: &str = "airdrop";
type Ids = BTreeSet<&'static str>;
fn ids(l: &[&'static str]) -> Ids {
    l.iter().copied().collect()
}

// ---- cryptography ---------------------------------------------------------------
fn sha(b: impl AsRef<[u8]>) -> [u8; 32] {
    Sha256::digest(b.as_ref()).into()
}

/// the trees of spec/airdrop.qnt (TREES)
pub const TREES: &[&[(&str, u128)]] = &[
    &[("alice", 100), ("bobby", 200), ("carol", 300), ("dave0", 50)],
    &[("alice", 1000)],
    &[("hash0", 100), ("hash1", 200), ("hash2", 100), ("hash3", 100_000_000_000_000_000_000), ("hash4", 1)],
    &[("alice", 100), ("alice", 150), ("bobby", 0), ("carol", 1 << 127), ("dave0", 7), ("bobby", 33), ("hash0", 100)],
    &[("hash0", 70), ("hash0", 30), ("alice", 100)],
    &[("bobby", 5), ("carol", 6), ("dave0", 7), ("alice", 8), ("hash1", 200), ("hash2", 9)],
    &[], // large, see trees()
    &[("alice", 1341), ("dave0", 2820), ("carol", 6417), ("alice", 12337), ("bobby", 40), ("dave0", 151)],
    &[("alice", 1341)],
    &[("hash0", 60), ("Hash0", 60), ("HASH0", 60), (" hash0", 60), ("hash0 ", 60), ("hash", 6), ("hash00", 600), ("hash0/alice", 60),
      ("hash0:6", 0), ("hash0:6", 60), ("0xhash0", 60)],
];
fn leaves(i: usize) -> Vec<(&'static str, u128)> {
    if !TREES[i].is_empty() {
        return TREES[i].to_vec();
    }
    let who = ["alice", "bobby", "carol", "dave0", "hash0", "hash1", "hash2", "hash5"];
    (0..601).map(|i| (who[i % 8], i as u128 + 1)).collect()
}

fn node(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    sha([x.as_slice(), y.as_slice()].concat())
}

pub struct Tree {
    pub root: String,
    pub proofs: Vec<Vec<String>>,
}

pub fn tree(ls: &[(&str, u128)]) -> Tree {
    let mut level: Vec<[u8; 32]> = ls.iter().map(|(k, x)| sha(format!("{k}:{x}"))).collect();
    let mut at: Vec<usize> = (0..ls.len()).collect();
    let mut proofs: Vec<Vec<String>> = vec![vec![]; ls.len()];
    while level.len() > 1 {
        for (leaf, p) in at.iter_mut().enumerate() {
            if let Some(sib) = level.get(*p ^ 1) {
                proofs[leaf].push(hex::encode(sib));
            }
            *p /= 2;
        }
        level = level.chunks(2).map(|c| if c.len() == 2 { node(&c[0], &c[1]) } else { c[0] }).collect();
    }
    Tree { root: hex::encode(level[0]), proofs }
}

fn trees() -> &'static Vec<Tree> {
    static T: OnceLock<Vec<Tree>> = OnceLock::new();
    T.get_or_init(|| (0..TREES.len()).map(|i| tree(&leaves(i))).collect())
}

fn key(name: &str) -> SigningKey {
    SigningKey::from_slice(&sha(format!("verif signing key {name}"))).unwrap()
}
pub fn pubkey(name: &str) -> Vec<u8> {
    key(name).verifying_key().to_encoded_point(name != "k1").as_bytes().to_vec()
}
pub fn signer_addr(name: &str) -> String {
    let r: [u8; 20] = ripemd::Ripemd160::digest(sha(pubkey(name))).into();
    bech32::encode("osmo", r.to_base32(), bech32::Variant::Bech32).unwrap()
}
pub fn sign(name: &str, text: &str, tamper: u128) -> String {
    let s: Signature = key(name).sign_prehash(&sha(text)).unwrap();
    let mut b = s.to_bytes().to_vec();
    match tamper {
        0 => {}
        1 => b[40] ^= 1,
        _ => {
            b.pop();
        }
    }
    hex::encode(b)
}

// ---- operations -> messages -------------------------------------------------------
fn ref_msg(r: &Value) -> Value {
    if r["byLabel"] == true { json!({ "label": st(&r["label"]) }) } else { json!({ "id": n(&r["id"]) as u64 }) }
}

fn claim_msg(a: &Value) -> Value {
    let p = &a["proof"];
    let mut proof = trees()[n(&p["tree"]) as usize].proofs[n(&p["leaf"]) as usize].clone();
    let junk = hex::encode(sha("junk"));
    match n(&p["tamper"]) {
        0 => {}
        1 => {
            if proof.pop().is_none() {
                proof.push(junk);
            }
        }
        2 => proof.push("zz".into()),
        3 => proof.push(junk),
        _ => {
            if proof.is_empty() {
                proof.push(junk);
            } else {
                let mut b = hex::decode(&proof[0]).unwrap();
                b[7] ^= 4;
                proof[0] = hex::encode(b);
            }
        }
    }
    let acct = if st(&a["acct"]).is_empty() { Value::Null } else { json!(st(&a["acct"])) };
    if st(&a["typ"]) == "open" {
        json!({ "open": { "airdrop": ref_msg(&a["ref"]), "amount": st(&a["n"]), "account": acct, "merkle_proof": proof } })
    } else {
        let g = &a["sig"];
        let text = format!("{}/{}/{}", st(&g["h"]), st(&g["to"]), st(&g["n"]));
        json!({ "bearer": { "airdrop": ref_msg(&a["ref"]), "amount": st(&a["n"]), "account": acct, "claim_hash": st(&a["h"]),
                            "claim_sign": sign(st(&g["by"]), &text, n(&g["tamper"])), "merkle_proof": proof } })
    }
}

fn root_hex(r: &Value) -> String {
    match st(r) {
        "-1" => "abcd".into(),
        "-2" => "zz".repeat(32),
        _ => trees()[n(r) as usize].root.clone(),
    }
}

fn call_of(tag: &str, a: &Value) -> Option<(String, Vec<cosmwasm_std::Coin>, Value)> {
    Some(match tag {
        "Register" => {
            let label = if a["hasLabel"] == true { json!(st(&a["label"])) } else { Value::Null };
            let m = if st(&a["typ"]) == "open" {
                json!({ "open": { "merkle_root": root_hex(&a["root"]), "denom": st(&a["denom"]), "label": label } })
            } else {
                let g = &a["sig"];
                let text = if st(&g["h"]) == "register" { signer_addr(st(&a["signer"])) } else { "something else".into() };
                json!({ "bearer": { "merkle_root": root_hex(&a["root"]), "denom": st(&a["denom"]), "label": label,
                    "signer_pub": hex::encode(pubkey(st(&a["signer"]))), "signer_sig": sign(st(&g["by"]), &text, n(&g["tamper"])) } })
            };
            (st(&a["s"]).into(), coins(&amap(&a["funds"])), json!({ "register": m }))
        }
        "Fund" => (st(&a["s"]).into(), coins(&amap(&a["funds"])), json!({ "fund": ref_msg(&a["ref"]) })),
        "Claim" => (st(&a["s"]).into(), vec![], json!({ "claim": claim_msg(a) })),
        "Close" => (st(&a["s"]).into(), vec![], json!({ "close": ref_msg(&a["ref"]) })),
        _ => return None,
    })
}

// ---- snapshots ---------------------------------------------------------------------
fn bank_of(s: &mut Snap, w: &Value) {
    for e in w["bank"].as_array().unwrap() {
        if st(&e[1]) != "0" {
            s.insert(format!("bal.{}.{}", st(&e[0][0]), st(&e[0][1])), st(&e[1]).into());
        }
    }
}

fn drop_spec(i: usize, d: &Value) -> Value {
    let bearer = st(&d["typ"]) == "bearer";
    let inner = json!({
        "id": i.to_string(), "creator": st(&d["creator"]), "denom": st(&d["denom"]), "total_amount": st(&d["total"]),
        "total_claimed": st(&d["claimed"]), "merkle_root": root_hex(&d["root"]),
        "label": if d["hasLabel"] == true { st(&d["label"]) } else { "(none)" },
        "created_at": st(&d["created"]), "closed_at": if st(&d["closed"]) == "-1" { "(open)" } else { st(&d["closed"]) },
        "signer": if bearer { signer_addr(st(&d["signer"])) } else { String::new() },
        "signer_pub": if bearer { hex::encode(pubkey(st(&d["signer"]))) } else { String::new() },
        "typ": st(&d["typ"]),
    });
    inner
}

fn drop_real(v: &Value) -> Value {
    let (typ, d) = v.as_object().unwrap().iter().next().unwrap();
    let s = |k: &str| match &d[k] {
        Value::Null => String::new(),
        Value::String(x) => x.clone(),
        x => x.to_string(),
    };
    json!({
        "id": s("id"), "creator": s("creator"), "denom": s("denom"), "total_amount": s("total_amount"), "total_claimed": s("total_claimed"),
        "merkle_root": s("merkle_root"), "label": if d["label"].is_null() { "(none)".into() } else { s("label") },
        "created_at": s("created_at"), "closed_at": if d["closed_at"].is_null() { "(open)".into() } else { s("closed_at") },
        "signer": s("signer"), "signer_pub": s("signer_pub"), "typ": typ,
    })
}

fn put(s: &mut Snap, i: usize, d: &Value) {
    for (k, v) in d.as_object().unwrap() {
        s.insert(format!("drop.{k}.{i}"), v.as_str().unwrap().to_string());
    }
}

fn snap_spec(w: &Value) -> Snap {
    let mut s = Snap::new();
    bank_of(&mut s, w);
    let ds = w["drops"].as_array().unwrap();
    s.insert("latest".into(), ds.len().to_string());
    for (i, d) in ds.iter().enumerate() {
        put(&mut s, i, &drop_spec(i, d));
        for (k, x) in amap(&d["claims"]) {
            s.insert(format!("claim.{i}.{k}"), x.to_string());
        }
    }
    for (l, i) in amap(&w["labels"]) {
        s.insert(format!("label.{l}"), i.to_string());
    }
    s
}

const KEYS: [&str; 19] = ["alice", "bobby", "carol", "dave0", "hash0", "hash1", "hash2", "hash3", "hash4", "hash5",
    "Hash0", "HASH0", " hash0", "hash0 ", "hash", "hash00", "hash0/alice", "hash0:6", "0xhash0"];

fn snap_real(ch: &Chain, labels: &[String], count: usize) -> Result<Snap, String> {
    let mut s = Snap::new();
    for ((a, d), x) in &ch.bank {
        s.insert(format!("bal.{a}.{d}"), x.to_string());
    }
    let q = |m: Value| ch.query(AIR, &m).map_err(|e| format!("query {m}: {e}"));
    s.insert("latest".into(), q(json!({ "latest_airdrop_id": {} }))?.to_string());
    for i in 0..count + 1 {
        match ch.query(AIR, &json!({ "get_airdrop": { "id": { "id": i } } })) {
            Ok(v) => put(&mut s, i, &drop_real(&v)),
            Err(_) => continue,
        }
        for k in KEYS {
            if let Ok(v) = ch.query(AIR, &json!({ "get_claim": { "airdrop": { "id": i }, "claim_key": k } })) {
                s.insert(format!("claim.{i}.{k}"), st(&v["amount"]).into());
                if v["id"] != json!(i) || v["claim_key"] != k {
                    return Err(format!("get_claim {i} {k} answered {v}"));
                }
            }
        }
    }
    for l in labels {
        if let Ok(v) = ch.query(AIR, &json!({ "get_label": { "label": l } })) {
            s.insert(format!("label.{l}"), v["airdrop_id"].to_string());
            if format!("{}/{}", st(&v["creator"]), st(&v["label"])) != *l {
                return Err(format!("get_label {l} answered {v}"));
            }
            let a = q(json!({ "get_airdrop": { "id": { "label": l } } }))?;
            let b = q(json!({ "get_airdrop": { "id": { "id": v["airdrop_id"] } } }))?;
            if a != b {
                return Err(format!("get_airdrop by label {l} answered {a}, by id {b}"));
            }
        }
    }
    Ok(s)
}

fn blame_accepted(tag: &str, why: &str) -> Ids {
    ids(match (tag, why) {
        ("Claim", "claimed") => &["A02"],
        ("Claim", "closed") => &["A04", "A03"],
        ("Claim", "funds") => &["A01"],
        ("Claim", _) => &["A03"],
        ("Register", "payment") => &["A05", "A01"],
        ("Register", _) => &["A05"],
        ("Fund", "payment") => &["A04", "A01"],
        ("Fund", _) | ("Close", _) => &["A04"],
        ("QVerify", _) => &["A06"],
        _ => &[],
    })
}

fn blame_field(tag: &str, key: &str) -> Ids {
    let head = key.split('.').next().unwrap();
    let field = key.split('.').nth(1).unwrap_or("");
    let mut r = ids(match (head, field, tag) {
        ("bal", _, "Claim") => &["A01", "A03"],
        ("bal", _, "Register") => &["A01", "A05"],
        ("bal", _, _) => &["A01", "A04"],
        ("claim", _, "Claim") => &["A02"],
        ("claim", _, _) => &["A02"],
        ("latest", _, _) => &["A05"],
        ("label", _, _) => &["A05"],
        ("drop", _, "Register") => &["A05"],
        ("drop", "total_claimed", _) => &["A01", "A03"],
        ("drop", "total_amount", "Fund") => &["A01", "A04"],
        ("drop", "closed_at", _) => &["A04"],
        ("drop", _, "Claim") => &["A01", "A03"],
        _ => &["A01", "A04"],
    });
    if head != "bal" {
        r.insert("A06");
    }
    r
}

fn exercises(tag: &str, ok: bool, why: &str) -> Ids {
    if !ok {
        return blame_accepted(tag, why);
    }
    ids(match tag {
        "Register" => &["A01", "A05", "A06", "A07"],
        "Fund" => &["A01", "A04", "A06"],
        "Claim" => &["A01", "A02", "A03", "A06", "A07"],
        "Close" => &["A01", "A04", "A06"],
        "QVerify" => &["A06"],
        _ => &[],
    })
}

pub struct Replay<'a> {
    pub sink: &'a dyn Sink,
    pub stats: &'a mut Stats,
    pub name: String,
}

impl<'a> Replay<'a> {
    fn alarm(&self, ids: Ids, step: usize, what: String, trail: &[String]) {
        self.sink.alarm(Alarm {
            props: ids.into_iter().map(String::from).collect(),
            trace: self.name.clone(),
            step,
            what,
            trail: trail.to_vec(),
        });
    }

    pub fn run(&mut self, states: &[Value]) {
        let w0 = &states[0]["w"];
        let mut ch = Chain::new(1_700_000_000);
        ch.height = n(&w0["height"]) as u64;
        if let Err(e) = ch.instantiate(Code::Airdrop, AIR, "deployer", json!({})) {
            self.alarm(ids(&["A05"]), 0, format!("instantiate: {e}"), &[]);
            return;
        }
        for e in w0["bank"].as_array().unwrap() {
            ch.set_bal(st(&e[0][0]), st(&e[0][1]), n(&e[1]));
        }
        let mut synced = true;
        // funded - claimed - refunded per airdrop, from what really happened
        let mut flow: BTreeMap<String, i128> = BTreeMap::new();
        for i in 1..states.len() {
            let before = &states[i - 1]["w"];
            let after = &states[i]["w"];
            let ok = states[i]["last"]["ok"] == true;
            let why = st(&states[i]["last"]["why"]);
            let (tag, a) = op_of(&states[i]);
            self.stats.step(&tag, ok, why);
            let ex = exercises(&tag, ok, why);
            if !ex.is_empty() {
                let k = hash_of((tag.as_str(), a.to_string(), before.to_string()));
                for id in ex {
                    self.stats.hit(id, k, || format!("{tag} {a} -> {}", if ok { "accepted" } else { why }));
                }
            }
            match tag.as_str() {
                "Nop" => {}
                "Advance" => ch.height += n(&a) as u64,
                "Donate" => {
                    if ok {
                        let _ = ch.transfer(st(&a["s"]), AIR, st(&a["d"]), n(&a["n"]));
                    }
                }
                "QVerify" => {
                    if synced {
                        self.verify(i, &a, ok, why, states[i]["last"]["valid"] == true, &ch);
                    }
                }
                _ => self.exec(i, &tag, &a, ok, why, before, after, &states[i]["last"]["ev"], &mut ch, &mut synced, &mut flow),
            }
        }
        self.stats.traces += 1;
        if !synced {
            self.stats.diverged += 1;
        }
    }

    fn verify(&mut self, i: usize, a: &Value, ok: bool, why: &str, valid: bool, ch: &Chain) {
        let m = json!({ "verify_claim": { "claim": claim_msg(a) } });
        self.stats.queries += 1;
        match (ch.query(AIR, &m), ok) {
            (Ok(v), true) => {
                if (v["valid"] == true) != valid {
                    self.alarm(ids(&["A06"]), i, format!("verify_claim {a}: specified valid={valid}, answered {v}"), &[]);
                }
            }
            (Ok(v), false) => {
                if v["valid"] == true {
                    self.alarm(ids(&["A06"]), i, format!("verify_claim {a}: answered {v}, the specification refuses ({why})"), &[]);
                }
            }
            (Err(e), true) => {
                // an answer that says no may also be an error
                if valid {
                    self.alarm(ids(&["A06"]), i, format!("verify_claim {a}: {e}, specified valid"), &[]);
                }
            }
            (Err(_), false) => {}
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn exec(&mut self, i: usize, tag: &str, a: &Value, ok: bool, why: &str, before: &Value, after: &Value, ev: &Value, ch: &mut Chain,
            synced: &mut bool, flow: &mut BTreeMap<String, i128>) {
        let (sender, funds, msg) = call_of(tag, a).unwrap();
        let pre = ch.clone();
        let got = ch.execute(AIR, &sender, &funds, &msg);
        let trail = ch.trail.clone();
        if *synced {
            match (&got, ok) {
                (Ok(()), false) => {
                    self.alarm(blame_accepted(tag, why), i, format!("{tag} {a} succeeded, the specification refuses it ({why})"), &trail);
                    *synced = false;
                }
                (Err(e), true) => {
                    let mut b = ids(match tag {
                        "Claim" => &["A03"],
                        "Register" => &["A05"],
                        _ => &["A04"],
                    });
                    if tag == "Claim" {
                        let drops = before["drops"].as_array().unwrap();
                        let keys = [st(&a["h"]), st(&a["acct"]), st(&a["s"])];
                        if drops.iter().any(|d| d["claims"].as_array().unwrap().iter().any(|c| keys.contains(&st(&c[0])))) {
                            b.insert("A02");
                        }
                        if drops.iter().zip(after["drops"].as_array().unwrap()).any(|(x, y)| x != y && y["claimed"] == y["total"]) {
                            b.insert("A01");
                        }
                    }
                    self.alarm(b, i, format!("{tag} {a} failed ({e}), the specification accepts it"), &trail);
                    *synced = false;
                }
                (Ok(()), true) => {
                    self.compare(tag, i, after, ch, synced);
                    if *synced {
                        let own = |k: &str, v: &Value| match k {
                            "merkle_root" => Some(root_hex(&v["n"])),
                            "signer" => Some(signer_addr(st(&v["s"]))),
                            _ => None,
                        };
                        let bad = crate::events::faults(ev, ch, own, |_| None);
                        self.stats.hit("E01", hash_of((tag, a.to_string(), before.to_string())), || format!("{tag} {a}: {:?}", ch.said.first()));
                        if !bad.is_empty() {
                            self.alarm(ids(&["E01"]), i, format!("the event of {tag} {a}: {} ({:?})", bad.join(", "), ch.said.first()), &trail);
                        }
                    }
                }
                (Err(_), false) => {
                    if ch.bank != pre.bank || ch.stores != pre.stores {
                        panic!("harness: rejected call changed state");
                    }
                }
            }
        }
        if got.is_ok() {
            self.monitor(i, tag, a, &pre, ch, &trail, flow);
        }
    }

    fn compare(&mut self, tag: &str, i: usize, after: &Value, ch: &Chain, synced: &mut bool) {
        let spec = snap_spec(after);
        let mut labels: Vec<String> = amap(&after["labels"]).into_keys().collect();
        for c in ["alice", "bobby", "carol", "dave0"] {
            for l in ["a", "b/c", "", "zz", "A", "a ", "ZZ", "aa", "b/C", "a/", "0"] {
                labels.push(format!("{c}/{l}"));
            }
        }
        labels.sort();
        labels.dedup();
        let count = after["drops"].as_array().unwrap().len();
        match snap_real(ch, &labels, count) {
            Ok(real) => {
                let d = snap_diff(&spec, &real);
                if !d.is_empty() {
                    let mut b = Ids::new();
                    for (k, _) in &d {
                        b.extend(blame_field(tag, k));
                    }
                    let txt: Vec<String> = d.iter().map(|(k, v)| format!("{k}: {v}")).collect();
                    self.alarm(b, i, format!("after {tag}: {}", txt.join("; ")), &ch.trail);
                    *synced = false;
                }
            }
            Err(e) => {
                self.alarm(ids(&["A06"]), i, format!("after {tag}: {e}"), &ch.trail);
                *synced = false;
            }
        }
        self.stats.compared += 1;
        if *synced {
            self.listings(i, after, ch);
        }
    }

    /// walk a listing page by page
    #[allow(clippy::too_many_arguments)]
    fn walk(&mut self, i: usize, ch: &Chain, what: &str, want: &[Value], limit: usize, mk: impl Fn(&Value, usize, &str) -> Value, cursor: impl Fn(&Value) -> Value) {
        for desc in [false, true] {
            let mut exp: Vec<Value> = want.to_vec();
            if desc {
                exp.reverse();
            }
            let mut got: Vec<Value> = vec![];
            let mut after = Value::Null;
            loop {
                let m = mk(&after, limit, if desc { "desc" } else { "asc" });
                match ch.query(AIR, &m) {
                    Ok(v) => {
                        let page = v.as_array().unwrap().clone();
                        if page.len() > limit {
                            self.alarm(ids(&["A07"]), i, format!("{m}: {} entries", page.len()), &[]);
                        }
                        if page.is_empty() {
                            break;
                        }
                        after = cursor(page.last().unwrap());
                        let full = page.len() == limit;
                        got.extend(page);
                        if !full || got.len() > exp.len() + 2 * limit {
                            break;
                        }
                    }
                    Err(e) => {
                        self.alarm(ids(&["A07"]), i, format!("{m}: {e}"), &[]);
                        break;
                    }
                }
            }
            self.stats.pages += 1;
            if got != exp {
                self.alarm(ids(&["A07"]), i, format!("{what} by pages of {limit} (desc={desc}): {} instead of {}", json!(got), json!(exp)), &[]);
            }
        }
    }

    fn listings(&mut self, i: usize, after: &Value, ch: &Chain) {
        let drops = after["drops"].as_array().unwrap();
        let one = |k: usize| ch.query(AIR, &json!({ "get_airdrop": { "id": { "id": k } } })).unwrap_or(Value::Null);
        let all: Vec<Value> = (0..drops.len()).map(one).collect();
        let limit = [1, 2, 3, 30][i % 4];
        let id_of = |v: &Value| v.as_object().unwrap().values().next().unwrap()["id"].clone();
        let opt = |o: Value| json!({ "list_airdrops": { "option": o } });
        match i % 5 {
            0 => self.walk(i, ch, "airdrops", &all, limit, |a, l, o| opt(json!({ "by_i_d": { "start_after": a, "limit": l, "order": o } })), id_of),
            1 => {
                for t in ["open", "bearer"] {
                    let w: Vec<Value> = all.iter().filter(|v| v.as_object().unwrap().contains_key(t)).cloned().collect();
                    self.walk(i, ch, &format!("{t} airdrops"), &w, limit, |a, l, o| opt(json!({ "by_type": { "type": t, "start_after": a, "limit": l, "order": o } })), id_of);
                }
            }
            2 => {
                for c in ["alice", "bobby", "carol", "dave0"] {
                    let w: Vec<Value> = all.iter().enumerate().filter(|(k, _)| st(&drops[*k]["creator"]) == c).map(|(_, v)| v.clone()).collect();
                    self.walk(i, ch, &format!("airdrops of {c}"), &w, limit, |a, l, o| opt(json!({ "by_creator": { "creator": c, "start_after": a, "limit": l, "order": o } })), id_of);
                }
            }
            3 => {
                let labels = amap(&after["labels"]); // sorted
                let w: Vec<Value> = labels.values().map(|k| all[*k as usize].clone()).collect();
                self.walk(i, ch, "airdrops by label", &w, limit, |a, l, o| opt(json!({ "by_label": { "start_after": a, "limit": l, "order": o } })),
                    |v| v.as_object().unwrap().values().next().unwrap()["label"].clone());
                let w: Vec<Value> = labels.iter().map(|(l, k)| {
                    let (c, r) = l.split_once('/').unwrap();
                    json!({ "creator": c, "label": r, "airdrop_id": *k as u64 })
                }).collect();
                self.walk(i, ch, "labels", &w, limit, |a, l, o| json!({ "list_labels": { "start_after": a, "limit": l, "order": o } }),
                    |v| json!(format!("{}/{}", st(&v["creator"]), st(&v["label"]))));
            }
            _ => {
                for (k, d) in drops.iter().enumerate() {
                    let w: Vec<Value> = amap(&d["claims"]).into_iter().map(|(c, x)| json!({ "id": k as u64, "amount": x.to_string(), "claim_key": c })).collect();
                    self.walk(i, ch, &format!("claims of {k}"), &w, limit.min(2), |a, l, o| json!({ "list_claims": { "airdrop": { "id": k }, "start_after": a, "limit": l, "order": o } }),
                        |v| v["claim_key"].clone());
                }
            }
        }
    }

    /// independent of the specification: money
    #[allow(clippy::too_many_arguments)]
    fn monitor(&mut self, i: usize, tag: &str, a: &Value, pre: &Chain, ch: &Chain, trail: &[String], _flow: &mut BTreeMap<String, i128>) {
        self.stats.monitored += 1;
        let mut owed: BTreeMap<String, u128> = BTreeMap::new();
        let latest = ch.query(AIR, &json!({ "latest_airdrop_id": {} })).ok().and_then(|v| v.as_u64()).unwrap_or(0);
        for k in 0..latest {
            let Ok(v) = ch.query(AIR, &json!({ "get_airdrop": { "id": { "id": k } } })) else { continue };
            let d = drop_real(&v);
            let (t, c) = (n(&d["total_amount"]), n(&d["total_claimed"]));
            if c > t {
                self.alarm(ids(&["A01"]), i, format!("after {tag}: airdrop {k} has paid {c} of {t}"), trail);
            }
            if st(&d["closed_at"]) == "(open)" {
                *owed.entry(st(&d["denom"]).to_string()).or_default() += t.saturating_sub(c);
            }
        }
        for (d, x) in owed {
            if ch.bal(AIR, &d) < x {
                self.alarm(ids(&["A01"]), i, format!("after {tag}: {}{d} held, {x} owed to open airdrops", ch.bal(AIR, &d)), trail);
            }
        }
        if tag == "Claim" {
            let to = if st(&a["acct"]).is_empty() { st(&a["s"]) } else { st(&a["acct"]) };
            for who in ["alice", "bobby", "carol", "dave0"] {
                for d in ["uosmo", "uatom", "uatoms"] {
                    let (x, y) = (pre.bal(who, d), ch.bal(who, d));
                    if y < x || (y > x && (who != to || y - x != n(&a["n"]))) {
                        self.alarm(ids(&["A03"]), i, format!("claim {a}: {who} went from {x} to {y}{d}"), trail);
                    }
                }
            }
        }
    }
}
