//! Replays behaviours of spec/core.qnt into the real vault contract and compares
//! outcome, balances and every observable field after every operation.
use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{Coin, Uint128, Uint256};
use serde_json::{json, Value};

use crate::chain::{Chain, Code, Pool, POOL};
use crate::report::{hash_of, Alarm, Sink, Stats};

pub const CORE: &str = "core";
pub const IDX: &str = "factory/core/uibcx";
const ONE: u128 = 1_000_000_000_000_000_000;

// ---- access to plain spec values ------------------------------------------------
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("not a string: {v}"))
}
pub fn neg(v: &Value) -> bool {
    st(v).starts_with('-')
}
pub fn n(v: &Value) -> u128 {
    st(v).parse().unwrap_or_else(|_| panic!("not a u128: {v}"))
}
pub fn opt(v: &Value) -> Value {
    if st(v).is_empty() { Value::Null } else { json!(st(v)) }
}
pub fn dec(raw: &str) -> String {
    let x: u128 = raw.parse().expect("decimal");
    format!("{}.{:018}", x / ONE, x % ONE)
}
fn optdec(v: &Value) -> Value {
    if neg(v) { Value::Null } else { json!(dec(st(v))) }
}
pub fn undec(v: &Value) -> u128 {
    let s = st(v);
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    i.parse::<u128>().unwrap() * ONE + format!("{f:0<18}").parse::<u128>().unwrap()
}
pub fn amap(v: &Value) -> BTreeMap<String, u128> {
    v.as_array().unwrap().iter().map(|e| (st(&e[0]).to_string(), n(&e[1]))).collect()
}
pub fn nz(m: BTreeMap<String, u128>) -> BTreeMap<String, u128> {
    m.into_iter().filter(|(_, x)| *x != 0).collect()
}
/// amounts as strings (JSON numbers stop at 64 bits)
pub fn js(m: BTreeMap<String, u128>) -> Value {
    json!(m.into_iter().filter(|(_, x)| *x != 0).map(|(d, x)| (d, x.to_string())).collect::<BTreeMap<_, _>>())
}
fn jsz(m: BTreeMap<String, u128>) -> Value {
    json!(m.into_iter().map(|(d, x)| (d, x.to_string())).collect::<BTreeMap<_, _>>())
}
pub fn coins(m: &BTreeMap<String, u128>) -> Vec<Coin> {
    m.iter().filter(|(_, x)| **x != 0).map(|(d, x)| Coin { denom: d.clone(), amount: Uint128::new(*x) }).collect()
}
pub fn coinmap(v: &Value) -> BTreeMap<String, u128> {
    let mut r = BTreeMap::new();
    for c in v.as_array().unwrap() {
        *r.entry(st(&c["denom"]).to_string()).or_insert(0) += n(&c["amount"]);
    }
    r
}
fn units_msg(v: &Value) -> Value {
    Value::Array(v.as_array().unwrap().iter().map(|u| json!([st(&u["d"]), dec(st(&u["u"]))])).collect())
}
fn units_spec(v: &Value) -> BTreeMap<String, u128> {
    v.as_array().unwrap().iter().map(|u| (st(&u["d"]).to_string(), n(&u["u"]))).collect()
}
fn units_real(v: &Value) -> BTreeMap<String, u128> {
    v.as_array().unwrap().iter().map(|u| (st(&u[0]).to_string(), undec(&u[1]))).collect()
}
fn fee_msg(f: &Value) -> Value {
    json!({
        "collector": st(&f["collector"]), "mint_fee": optdec(&f["mint"]), "burn_fee": optdec(&f["burn"]),
        "streaming_fee": if f["sf"] == true { json!({ "rate": dec(st(&f["rate"])), "freeze": f["freeze"] }) } else { Value::Null },
    })
}
fn routes_msg(v: &Value) -> Value {
    Value::Array(v.as_array().unwrap().iter().map(|r| json!({ "pool_id": n(&r["pool"]) as u64, "token_denom": st(&r["d"]) })).collect())
}
fn fee_of_core(c: &Value) -> Value {
    json!({ "collector": c["collector"], "mint": c["mintFee"], "burn": c["burnFee"], "sf": c["sf"], "rate": c["sfRate"], "freeze": c["sfFreeze"] })
}

// ---- operations -> messages ------------------------------------------------------
pub struct Call {
    pub sender: String,
    pub funds: Vec<Coin>,
    pub msg: Value,
}

fn gov(s: &Value, m: Value) -> Option<Call> {
    Some(Call { sender: st(s).into(), funds: vec![], msg: json!({ "gov": m }) })
}
fn reb(s: &Value, m: Value) -> Option<Call> {
    Some(Call { sender: st(s).into(), funds: vec![], msg: json!({ "rebalance": m }) })
}
fn o64(v: &Value) -> Value {
    if neg(v) { Value::Null } else { json!(st(v).parse::<u64>().unwrap()) }
}

pub fn call_of(tag: &str, a: &Value) -> Option<Call> {
    match tag {
        "Mint" => Some(Call {
            sender: st(&a["s"]).into(),
            funds: coins(&amap(&a["funds"])),
            msg: json!({ "mint": { "amount": st(&a["amt"]), "receiver": opt(&a["rcv"]), "refund_to": opt(&a["ref"]) } }),
        }),
        "Burn" => Some(Call {
            sender: st(&a["s"]).into(),
            funds: coins(&amap(&a["funds"])),
            msg: json!({ "burn": { "redeem_to": opt(&a["to"]) } }),
        }),
        "Realize" => Some(Call { sender: st(a).into(), funds: vec![], msg: json!({ "realize": {} }) }),
        "Pause" => gov(&a["s"], json!({ "pause": { "expires_at": o64(&a["exp"]) } })),
        "Release" => gov(a, json!({ "release": {} })),
        "UpdateGov" => gov(&a["s"], json!({ "update_gov": st(&a["to"]) })),
        "AcceptGov" => gov(a, json!({ "accept_gov": {} })),
        "RevokeGov" => gov(a, json!({ "revoke_gov": {} })),
        "UpdateFee" => gov(&a["s"], json!({ "update_fee_strategy": fee_msg(&a["f"]) })),
        "UpdateManager" => gov(&a["s"], json!({ "update_rebalance_manager": opt(&a["m"]) })),
        "UpdateReserve" => gov(&a["s"], json!({ "update_reserve_denom": st(&a["d"]) })),
        "UpdateTrade" => gov(&a["s"], json!({ "update_trade_info": {
            "denom": st(&a["d"]), "routes": routes_msg(&a["routes"]),
            "cooldown": st(&a["cooldown"]).parse::<u64>().unwrap(), "max_trade_amount": st(&a["maxAmt"]) } })),
        "Init" => reb(&a["s"], json!({ "init": {
            "manager": opt(&a["mgr"]), "deflation": units_msg(&a["defl"]), "inflation": units_msg(&a["infl"]) } })),
        "Deflate" => reb(&a["s"], json!({ "trade": { "deflate": {
            "target_denom": st(&a["d"]), "amount_out": st(&a["x"]), "max_amount_in": st(&a["lim"]) } } })),
        "Inflate" => reb(&a["s"], json!({ "trade": { "inflate": {
            "target_denom": st(&a["d"]), "amount_in": st(&a["x"]), "min_amount_out": st(&a["lim"]) } } })),
        "Finalize" => reb(a, json!({ "finalize": {} })),
        _ => None,
    }
}

pub fn instantiate_msg(units: &Value, f: &Value, gov: &str, reserve: &str) -> Value {
    json!({ "gov": gov, "fee": fee_msg(f), "index_denom": "uibcx", "index_units": units_msg(units), "reserve_denom": reserve })
}

pub fn op_of(state: &Value) -> (String, Value) {
    let op = &state["last"]["op"];
    (st(&op["tag"]).to_string(), op["value"].clone())
}

// ---- worlds ----------------------------------------------------------------------
pub fn spec_bank(w: &Value) -> BTreeMap<(String, String), u128> {
    w["bank"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|e| st(&e[1]) != "0")
        .map(|e| ((st(&e[0][0]).to_string(), st(&e[0][1]).to_string()), n(&e[1])))
        .collect()
}

pub fn spec_pools(w: &Value) -> BTreeMap<u64, Pool> {
    w["pools"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let p = &e[1];
            (
                n(&e[0]) as u64,
                Pool::Linear { kind: 0, a: st(&p["a"]).into(), b: st(&p["b"]).into(), num: n(&p["num"]), den: n(&p["den"]) },
            )
        })
        .collect()
}

/// the real chain in the initial state of a behaviour
pub fn boot(w: &Value) -> Result<Chain, String> {
    let c = &w["c"];
    let mut ch = Chain::new(n(&w["now"]) as u64);
    ch.pools = spec_pools(w);
    ch.skew = n(&w["skew"]);
    ch.instantiate(
        Code::Core,
        CORE,
        "deployer",
        instantiate_msg(&c["units"], &fee_of_core(c), st(&c["gov"]), st(&c["reserve"])),
    )
    .map_err(|e| format!("instantiate: {e}"))?;
    ch.bank = spec_bank(w);
    Ok(ch)
}

pub type Snap = BTreeMap<String, String>;

fn put_units(s: &mut Snap, p: &str, m: &BTreeMap<String, u128>) {
    for (d, u) in m {
        s.insert(format!("{p}.{d}"), u.to_string());
    }
}

pub fn snap_spec(w: &Value) -> Snap {
    let c = &w["c"];
    let mut s = Snap::new();
    let now = n(&w["now"]);
    s.insert("gov".into(), st(&c["gov"]).into());
    s.insert("pending".into(), st(&c["pending"]).into());
    let exp_live = neg(&c["pauseExp"]) || n(&c["pauseExp"]) > now;
    let p = c["paused"] == true && exp_live;
    s.insert("paused".into(), if p { st(&c["pauseExp"]).to_string() } else { "no".into() });
    s.insert("reserve".into(), st(&c["reserve"]).into());
    s.insert("idx".into(), IDX.into());
    s.insert("supply".into(), st(&c["supply"]).into());
    s.insert("collector".into(), st(&c["collector"]).into());
    s.insert("mintFee".into(), st(&c["mintFee"]).into());
    s.insert("burnFee".into(), st(&c["burnFee"]).into());
    let sf = c["sf"] == true;
    s.insert("rate".into(), if sf { st(&c["sfRate"]).into() } else { "none".into() });
    if sf {
        s.insert("freeze".into(), c["sfFreeze"].to_string());
        if c["sfFreeze"] != true {
            s.insert("last".into(), st(&c["sfLast"]).into());
        }
        put_units(&mut s, "coll", &nz(amap(&c["sfColl"])));
    }
    put_units(&mut s, "unit", &units_spec(&c["units"]));
    let r = c["reb"] == true;
    s.insert("reb".into(), r.to_string());
    if r {
        s.insert("mgr".into(), st(&c["mgr"]).into());
        put_units(&mut s, "defl", &units_spec(&c["defl"]));
        put_units(&mut s, "infl", &units_spec(&c["infl"]));
    }
    for e in c["trades"].as_array().unwrap() {
        let t = &e[1];
        let rs: Vec<String> = t["routes"].as_array().unwrap().iter().map(|r| format!("{}:{}", st(&r["pool"]), st(&r["d"]))).collect();
        s.insert(
            format!("trade.{}.{}", st(&e[0][0]), st(&e[0][1])),
            format!("{} cd={} max={}", rs.join(">"), st(&t["cooldown"]), st(&t["maxAmt"])),
        );
        s.insert(format!("tlast.{}.{}", st(&e[0][0]), st(&e[0][1])), st(&t["last"]).into());
    }
    for ((a, d), x) in spec_bank(w) {
        s.insert(format!("bal.{a}.{d}"), x.to_string());
    }
    s
}

pub const DENOMS: [&str; 5] = ["uosmo", "uatom", "ujuno", "uion", "uxxx"];

fn trade_line(t: &Value) -> (String, String) {
    let rs: Vec<String> = t["routes"].as_array().unwrap().iter().map(|r| format!("{}:{}", r["pool_id"], st(&r["token_denom"]))).collect();
    (
        format!("{} cd={} max={}", rs.join(">"), t["cooldown"], st(&t["max_trade_amount"])),
        if t["last_traded_at"].is_null() { "-1".into() } else { t["last_traded_at"].to_string() },
    )
}

/// everything observable about the vault, through its queries and the bank;
/// `at` = the time of the last accrual according to the specification
pub fn snap_real(ch: &Chain, addr: &str, at: Option<u64>) -> Result<Snap, String> {
    let q = |m: Value| ch.query(addr, &m).map_err(|e| format!("query {m}: {e}"));
    let mut s = Snap::new();
    let cfg = q(json!({ "get_config": { "time": null } }))?;
    s.insert("gov".into(), st(&cfg["gov"]).into());
    s.insert("pending".into(), cfg["pending_gov"].as_str().unwrap_or("").into());
    let p = &cfg["paused"];
    s.insert(
        "paused".into(),
        if p["paused"] == true {
            if p["expires_at"].is_null() { "-1".into() } else { p["expires_at"].to_string() }
        } else {
            "no".into()
        },
    );
    s.insert("reserve".into(), st(&cfg["reserve_denom"]).into());
    s.insert("idx".into(), st(&cfg["index_denom"]).into());
    s.insert("supply".into(), st(&q(json!({ "get_total_supply": {} }))?).into());
    let fee = q(json!({ "get_fee": { "time": at } }))?;
    s.insert("collector".into(), st(&fee["collector"]).into());
    for (k, f) in [("mintFee", "mint_fee"), ("burnFee", "burn_fee")] {
        s.insert(k.into(), if fee[f].is_null() { "-1".into() } else { undec(&fee[f]).to_string() });
    }
    let sf = &fee["streaming_fee"];
    s.insert("rate".into(), if sf.is_null() { "none".into() } else { undec(&sf["rate"]).to_string() });
    if !sf.is_null() {
        s.insert("freeze".into(), sf["freeze"].to_string());
        if sf["freeze"] != true {
            s.insert("last".into(), sf["last_collected_at"].to_string());
        }
        put_units(&mut s, "coll", &nz(coinmap(&sf["collected"])));
    }
    let pf = q(json!({ "get_portfolio": { "time": at } }))?;
    put_units(&mut s, "unit", &units_real(&pf["units"]));
    let r = &q(json!({ "get_rebalance": {} }))?["rebalance"];
    s.insert("reb".into(), (!r.is_null()).to_string());
    if !r.is_null() {
        s.insert("mgr".into(), r["manager"].as_str().unwrap_or("").into());
        put_units(&mut s, "defl", &units_real(&r["deflation"]));
        put_units(&mut s, "infl", &units_real(&r["inflation"]));
    }
    for d in DENOMS {
        let l = q(json!({ "list_trade_info": { "denom_in": d, "start_after": null, "limit": 30, "order": null } }))?;
        for t in l.as_array().unwrap() {
            let k = format!("{}.{}", st(&t["denom_in"]), st(&t["denom_out"]));
            let (a, b) = trade_line(t);
            s.insert(format!("trade.{k}"), a);
            s.insert(format!("tlast.{k}"), b);
        }
    }
    for ((a, d), x) in &ch.bank {
        s.insert(format!("bal.{a}.{d}"), x.to_string());
    }
    Ok(s)
}

pub fn snap_diff(spec: &Snap, real: &Snap) -> Vec<(String, String)> {
    let keys: BTreeSet<&String> = spec.keys().chain(real.keys()).collect();
    keys.into_iter()
        .filter(|k| spec.get(*k) != real.get(*k))
        .map(|k| {
            let f = |m: &Snap| m.get(k).cloned().unwrap_or("-".into());
            (k.clone(), format!("specified {}, observed {}", f(spec), f(real)))
        })
        .collect()
}

// ---- attribution -------------------------------------------------------------------
type Ids = BTreeSet<&'static str>;
fn ids(l: &[&'static str]) -> Ids {
    l.iter().copied().collect()
}

fn blame_accepted(tag: &str, why: &str) -> Ids {
    ids(match (why, tag) {
        ("auth", "AcceptGov") | ("auth", "RevokeGov") | ("auth", "UpdateGov") => &["C09", "C10"],
        ("auth", _) => &["C09"],
        ("paused", _) | ("notpaused", _) | ("expiry", _) => &["C05"],
        ("rebalancing", "Mint") | ("rebalancing", "Burn") => &["C05"],
        ("rebalancing", _) => &["C11"],
        ("insolvent", _) => &["C01"],
        ("pending", _) | ("nopending", _) => &["C10"],
        ("rates", _) => &["C08"],
        ("pow", _) | ("overrate", _) | ("past", _) => &["C06"],
        (_, "Mint") => &["C03"],
        (_, "Burn") => &["C04"],
        (_, "Realize") => &["C07"],
        (_, "Pause") | (_, "Release") => &["C05"],
        (_, "UpdateGov") | (_, "AcceptGov") | (_, "RevokeGov") => &["C10"],
        (_, "UpdateFee") => &["C08"],
        (_, "UpdateManager") | (_, "UpdateReserve") => &["C11"],
        (_, "UpdateTrade") => &["C12"],
        (_, "Init") => &["C11"],
        (_, "Deflate") | (_, "Inflate") => &["C12"],
        (_, "Finalize") => &["C14"],
        (_, "Instantiate") => &["C08"],
        _ => &[],
    })
}

fn blame_refused(tag: &str, before: &Value) -> Ids {
    let expired = before["c"]["paused"] == true; // accepted by the spec although a pause is on record: it had expired
    let mut r = ids(match tag {
        "Mint" => &["C03"],
        "Burn" => &["C04"],
        "Realize" => &["C07"],
        "Pause" | "Release" => &["C05"],
        "UpdateGov" | "AcceptGov" | "RevokeGov" => &["C10"],
        "UpdateFee" => &["C08"],
        "UpdateManager" | "UpdateReserve" => &["C11"],
        "UpdateTrade" => &["C12"],
        "Init" => &["C11"],
        "Deflate" | "Inflate" => &["C12", "C13"],
        "Finalize" => &["C14", "C18"],
        "Instantiate" => &["C08"],
        _ => &[],
    });
    if expired && (tag == "Mint" || tag == "Burn") {
        r.insert("C05");
    }
    r
}

/// properties whose statement a deviating field contradicts, after an accepted operation
fn blame_field(tag: &str, key: &str, reb: bool) -> Ids {
    let head = key.split('.').next().unwrap();
    let accruing = matches!(tag, "Mint" | "Burn" | "Realize" | "Init" | "UpdateFee");
    let trade = matches!(tag, "Deflate" | "Inflate");
    let handover = matches!(tag, "UpdateGov" | "AcceptGov" | "RevokeGov");
    let mut r = Ids::new();
    let mut add = |x: &[&'static str]| r.extend(x.iter().copied());
    match head {
        "bal" => {
            match tag {
                "Mint" => add(&["C03"]),
                "Burn" => add(&["C04"]),
                "Realize" | "UpdateFee" => add(&["C07"]),
                "Deflate" | "Inflate" => add(&["C13"]),
                "Finalize" => add(&["C14"]),
                _ => add(&["C01"]),
            }
            if key.ends_with(IDX) && tag != "Mint" && tag != "Burn" {
                add(&["C02"]);
            }
        }
        "supply" => {
            add(&["C02"]);
            match tag {
                "Mint" => add(&["C03"]),
                "Burn" => add(&["C04"]),
                _ => {}
            }
        }
        "unit" | "coll" | "last" | "freeze" => {
            if tag == "Init" || tag == "Finalize" || reb {
                add(&["C15"]);
            }
            match (head, tag) {
                ("unit", "Deflate") | ("unit", "Inflate") => add(&["C13"]),
                ("unit", "Finalize") => add(&["C14"]),
                ("freeze", "UpdateFee") => add(&["C08"]),
                ("freeze", "Init") | ("freeze", "Finalize") | ("last", "Finalize") => {}
                _ => add(&["C06"]),
            }
            if head == "coll" && (!accruing || matches!(tag, "Realize" | "UpdateFee")) {
                add(&["C07"]);
            }
            if head == "unit" && !accruing && !trade && tag != "Finalize" {
                add(&["C01"]);
            }
        }
        "gov" | "pending" => {
            add(&["C10"]);
            if !handover {
                add(&["C09"]);
            }
        }
        "paused" => add(&["C05"]),
        "collector" | "mintFee" | "burnFee" | "rate" => add(&["C08"]),
        "reserve" | "defl" | "infl" => add(&["C11"]),
        "trade" | "tlast" => add(&["C12"]),
        "reb" => add(if tag == "Finalize" { &["C14"] } else { &["C11"] }),
        "mgr" => {
            add(&["C11"]);
            if tag != "Init" {
                add(&["C09"]);
            }
        }
        "idx" => add(&["C03"]),
        _ => {}
    }
    // balances and cooldowns aside, fields are observed through queries
    if head != "bal" {
        add(&["C16"]);
    }
    r
}

/// properties a step puts to the test when the specification accepts / refuses it
fn exercises(tag: &str, ok: bool, why: &str) -> Ids {
    if !ok {
        return blame_accepted(tag, why);
    }
    ids(match tag {
        "Mint" => &["C01", "C02", "C03", "C05", "C06", "C07", "C16"],
        "Burn" => &["C01", "C02", "C04", "C05", "C06", "C07", "C16"],
        "Realize" => &["C01", "C06", "C07", "C09"],
        "Pause" | "Release" => &["C05", "C09"],
        "UpdateGov" | "AcceptGov" | "RevokeGov" => &["C09", "C10"],
        "UpdateFee" => &["C06", "C07", "C08", "C09"],
        "UpdateManager" | "UpdateReserve" => &["C09", "C11"],
        "UpdateTrade" => &["C09", "C12", "C17"],
        "Init" => &["C06", "C09", "C11", "C15"],
        "Deflate" | "Inflate" => &["C01", "C09", "C12", "C13"],
        "Finalize" => &["C09", "C14", "C15", "C18"],
        "Instantiate" => &["C08"],
        "QSimMint" | "QSimBurn" | "QFee" | "QPortfolio" | "QConfig" => &["C16"],
        "QFinish" => &["C18"],
        "QRedeem" => &["C19"],
        _ => &[],
    })
}

// ---- replay -------------------------------------------------------------------------
pub const ACCTS: [&str; 7] = ["alice", "bobby", "gov0", "gov1", "mgr0", "coll0", "coll1"];

fn fee_view(ch: &Chain) -> Option<(String, BTreeMap<String, u128>, bool)> {
    let f = ch.query(CORE, &json!({ "get_fee": { "time": null } })).ok()?;
    let sf = &f["streaming_fee"];
    let coll = if sf.is_null() { BTreeMap::new() } else { nz(coinmap(&sf["collected"])) };
    Some((st(&f["collector"]).to_string(), coll, !sf.is_null()))
}

struct Mon {
    exact_in_form: bool, // the known form of the finding on exact-output routes was seen in this behaviour
    dust: u128, // base units per denom the vault may be short of, from rounding
}

pub struct Replay<'a> {
    pub sink: &'a dyn Sink,
    pub stats: &'a mut Stats,
    pub name: String,
}

impl<'a> Replay<'a> {
    fn alarm(&self, ids: Ids, step: usize, what: String, trail: &[String]) {
        self.sink.alarm(Alarm {
            props: ids.into_iter().map(String::from).collect(),
            trace: self.name.clone(),
            step,
            what,
            trail: trail.to_vec(),
        });
    }

    pub fn run(&mut self, states: &[Value]) {
        let w0 = &states[0]["w"];
        let mut ch = match boot(w0) {
            Ok(c) => c,
            Err(e) => {
                self.alarm(ids(&["C08", "C11"]), 0, format!("the contract refused a valid configuration: {e}"), &[]);
                return;
            }
        };
        let mut mon = Mon { exact_in_form: false, dust: 0 };
        let mut synced = true;
        self.compare("Instantiate", 0, w0, &ch, &mut synced);
        for i in 1..states.len() {
            let before = &states[i - 1]["w"];
            let after = &states[i]["w"];
            let ok = states[i]["last"]["ok"] == true;
            let why = st(&states[i]["last"]["why"]).to_string();
            let (tag, a) = op_of(&states[i]);
            self.stats.step(&tag, ok, &why);
            let ex = exercises(&tag, ok, &why);
            if !ex.is_empty() {
                let key = hash_of((tag.as_str(), a.to_string(), before.to_string()));
                for id in ex {
                    self.stats.hit(id, key, || format!("{tag} {a} at t={} -> {}", st(&before["now"]), if ok { "accepted" } else { why.as_str() }));
                }
            }
            self.step(i, &tag, &a, ok, &why, before, after, &states[i]["last"]["out"], &states[i]["last"]["ev"], &mut ch, &mut mon, &mut synced);
        }
        self.stats.traces += 1;
        if !synced {
            self.stats.diverged += 1;
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn step(&mut self, i: usize, tag: &str, a: &Value, ok: bool, why: &str, before: &Value, after: &Value, out: &Value,
            ev: &Value, ch: &mut Chain, mon: &mut Mon, synced: &mut bool) {
        match tag {
            "Nop" => return,
            "Wait" => {
                let reb0 = self.rebalancing(ch);
                let f0 = fee_view(ch);
                ch.now += n(a) as u64;
                ch.height += 1;
                if reb0 {
                    let f1 = fee_view(ch);
                    if f0 != f1 {
                        self.alarm(ids(&["C15"]), i, format!("streaming fees accrued while rebalancing: {f0:?} -> {f1:?}"), &[]);
                    }
                }
                return;
            }
            "SetPrice" => {
                ch.pools = spec_pools(after);
                return;
            }
            "SetSkew" => {
                ch.skew = n(a);
                return;
            }
            "Send" => {
                if *synced {
                    if ok {
                        let _ = ch.transfer(st(&a["s"]), st(&a["to"]), st(&a["d"]), n(&a["amt"]));
                    }
                } else {
                    let _ = ch.transfer(st(&a["s"]), st(&a["to"]), st(&a["d"]), n(&a["amt"]));
                }
                return;
            }
            "Instantiate" => {
                self.instantiate(i, a, ok, why, ch, before);
                return;
            }
            "QRedeem" => {
                if *synced {
                    self.redeem(i, a, out, before, ch);
                }
                return;
            }
            "QFinish" => {
                if *synced && ok {
                    self.finish(i, out, before, ch);
                }
                return;
            }
            "QSimMint" | "QSimBurn" | "QFee" | "QPortfolio" | "QConfig" => {
                if *synced {
                    self.query(i, tag, a, ok, out, before, ch);
                }
                return;
            }
            _ => {}
        }
        let Some(call) = call_of(tag, a) else { return };
        let pre = ch.clone();
        let fee0 = fee_view(&pre);
        let pf0 = pre.query(CORE, &json!({ "get_portfolio": { "time": null } })).ok();
        let got = ch.execute(CORE, &call.sender, &call.funds, &call.msg);
        let trail = ch.trail.clone();
        if *synced {
            match (&got, ok) {
                // nothing to pay: refusing and doing nothing come to the same
                (Ok(()), false) if tag == "Realize" && why == "dust" && ch.bank == pre.bank => {
                    *ch = pre;
                    return;
                }
                (Ok(()), false) => {
                    let b = blame_accepted(tag, why);
                    self.alarm(b, i, format!("{tag} {a} succeeded, the specification refuses it ({why})"), &trail);
                    *synced = false;
                }
                (Err(e), true) => {
                    let mut b = blame_refused(tag, before);
                    let privileged = !matches!(tag, "Mint" | "Burn");
                    if privileged {
                        // would somebody else have been let in?
                        for other in ACCTS.iter().filter(|o| **o != call.sender) {
                            let mut f = pre.clone();
                            if f.execute(CORE, other, &call.funds, &call.msg).is_ok() {
                                b.insert("C09");
                                break;
                            }
                        }
                    }
                    self.alarm(b, i, format!("{tag} {a} failed ({e}), the specification accepts it"), &trail);
                    *synced = false;
                }
                (Ok(()), true) => {
                    self.compare(tag, i, after, ch, synced);
                    if *synced {
                        let height = ch.height.to_string();
                        let bad = crate::events::faults(ev, ch, |_, _| None, |_| None);
                        let late = tag == "Finalize" && ch.said.first().map(|s| s.1.iter().any(|(k, v)| k == "finalized_at" && *v != height)).unwrap_or(false);
                        self.stats.hit("E01", hash_of((tag, a.to_string(), before.to_string())), || format!("{tag} {a}: {:?}", ch.said.first()));
                        if !bad.is_empty() || late {
                            self.alarm(ids(&["E01"]), i, format!("the event of {tag} {a}: {} ({:?})", bad.join(", "), ch.said.first()), &trail);
                        }
                    }
                    if tag == "Deflate" || tag == "Inflate" {
                        self.swap_route(i, tag, a, before, ch, mon);
                    }
                    if *synced && (tag == "Deflate" || tag == "Inflate" || tag == "Init") {
                        self.probe_earmarks(i, after, ch);
                    }
                }
                (Err(_), false) => {
                    if ch.bank != pre.bank || ch.stores != pre.stores {
                        panic!("harness: rejected call changed state");
                    }
                }
            }
        }
        self.monitors(i, tag, a, got.is_ok(), &pre, ch, fee0, pf0, mon, &call, &trail);
    }

    fn rebalancing(&self, ch: &Chain) -> bool {
        ch.query(CORE, &json!({ "get_rebalance": {} })).map(|v| !v["rebalance"].is_null()).unwrap_or(false)
    }

    fn compare(&mut self, tag: &str, i: usize, after: &Value, ch: &Chain, synced: &mut bool) {
        let spec = snap_spec(after);
        let c = &after["c"];
        let at = if c["sf"] == true && c["sfFreeze"] != true { Some(n(&c["sfLast"]) as u64) } else { None };
        match snap_real(ch, CORE, at) {
            Ok(real) => {
                let d = snap_diff(&spec, &real);
                if !d.is_empty() {
                    let mut b = Ids::new();
                    for (k, _) in &d {
                        b.extend(blame_field(tag, k, c["reb"] == true));
                    }
                    let txt: Vec<String> = d.iter().map(|(k, v)| format!("{k}: {v}")).collect();
                    self.alarm(b, i, format!("after {tag}: {}", txt.join("; ")), &ch.trail);
                    *synced = false;
                }
            }
            Err(e) => {
                let b = if tag == "Finalize" || tag == "Init" { ids(&["C15", "C16"]) } else { ids(&["C06", "C16"]) };
                self.alarm(b, i, format!("after {tag}: {e}"), &ch.trail);
                *synced = false;
            }
        }
        self.stats.compared += 1;
    }

    /// the swap message of a trade: the configured pools in order, naming the denoms the pool
    /// manager expects (exact-input routes name what each pool pays out, exact-output routes
    /// what it takes in)
    fn swap_route(&mut self, i: usize, tag: &str, a: &Value, before: &Value, ch: &Chain, mon: &mut Mon) {
        let c = &before["c"];
        let (d, reserve) = (st(&a["d"]), st(&c["reserve"]));
        if d == reserve {
            return;
        }
        let sale = tag == "Deflate";
        let key = if sale { [d, reserve] } else { [reserve, d] };
        let Some(t) = c["trades"].as_array().unwrap().iter().find(|e| st(&e[0][0]) == key[0] && st(&e[0][1]) == key[1]) else { return };
        let conf: Vec<(u64, String)> = t[1]["routes"].as_array().unwrap().iter().map(|r| (n(&r["pool"]) as u64, st(&r["d"]).to_string())).collect();
        let mut ins: Vec<(u64, String)> = conf.clone();
        let mut from = key[0].to_string();
        for h in ins.iter_mut() {
            std::mem::swap(&mut from, &mut h.1);
        }
        let lim = |x: &Value| n(x);
        let ok = |s: &crate::chain::Swap| s.exact_in != sale && s.denom == reserve && s.amount == lim(&a["x"]);
        match ch.swaps.as_slice() {
            [s] if ok(s) && s.hops == (if sale { ins } else { conf.clone() }) => {}
            [s] if ok(s) && sale && s.hops == conf => {
                if !mon.exact_in_form {
                    mon.exact_in_form = true;
                    self.alarm(ids(&["C12"]), i, format!("sale of {d}: exact-output swap with the exact-input route of the pair, {:?}", s.hops), &[]);
                }
            }
            o => self.alarm(ids(&["C12"]), i, format!("{tag} of {d} along {conf:?} asked the pool manager for {o:?}"), &ch.trail),
        }
    }

    /// the earmarked reserve is not queryable: probe how much can be spent, on a fork
    fn probe_earmarks(&mut self, i: usize, after: &Value, ch: &Chain) {
        let c = &after["c"];
        let reserve = st(&c["reserve"]);
        let supply = Uint256::from(n(&c["supply"]));
        let mgr = if st(&c["mgr"]).is_empty() { "alice" } else { st(&c["mgr"]) };
        let res = units_spec(&c["resUnits"]);
        for d in DENOMS.iter().filter(|d| **d != reserve && **d != "uxxx") {
            let ru = res.get(*d).copied().unwrap_or(0);
            let room = Uint128::try_from(Uint256::from(ru) * supply / Uint256::from(ONE)).unwrap().u128();
            let mut f = ch.clone();
            f.pools.insert(77, Pool::Linear { kind: 0, a: reserve.into(), b: d.to_string(), num: 1, den: 1 });
            f.skew = 100;
            let routes = json!([{ "pool_id": 77, "token_denom": d }]);
            let ok = f.execute(CORE, st(&c["gov"]), &[], &json!({ "gov": { "update_trade_info": {
                "denom": reserve, "routes": routes, "cooldown": 0, "max_trade_amount": Uint128::MAX } } })).is_ok();
            if !ok {
                continue;
            }
            let go = |x: u128| {
                f.clone().execute(CORE, mgr, &[], &json!({ "rebalance": { "trade": { "inflate": {
                    "target_denom": d, "amount_in": x.to_string(), "min_amount_out": "0" } } } }))
            };
            self.stats.probes += 1;
            if room > 0 && ch.bal(CORE, reserve) >= room {
                if let Err(e) = go(room) {
                    self.alarm(ids(&["C13"]), i, format!("{room}{reserve} are earmarked for {d} but cannot be spent: {e}"), &ch.trail);
                }
            }
            if ch.bal(CORE, reserve) > room && go(room + 1).is_ok() {
                self.alarm(ids(&["C12", "C13"]), i, format!("only {room}{reserve} are earmarked for {d}, {} could be spent", room + 1), &ch.trail);
            }
        }
    }

    /// carry out, on a fork, the trades that end the rebalance according to the specification
    fn finish(&mut self, i: usize, out: &Value, before: &Value, ch: &Chain) {
        if out["b"] != true {
            panic!("harness: a rebalance the specification cannot finish");
        }
        let c = &before["c"];
        let reserve = st(&c["reserve"]);
        let gov = st(&c["gov"]);
        let mgr = if st(&c["mgr"]).is_empty() { "alice" } else { st(&c["mgr"]) };
        let mut f = ch.clone();
        f.skew = 100;
        for (d, x) in amap(&out["m"]) {
            *f.bank.entry((CORE.to_string(), d)).or_insert(0) += x;
        }
        let go = |f: &mut Chain, s: &str, what: String, m: Value| -> bool {
            if let Err(e) = f.execute(CORE, s, &[], &m) {
                self.alarm(ids(&["C18"]), i, format!("the rebalance cannot be brought to its end: {what}: {e}"), &f.trail);
                return false;
            }
            true
        };
        let legs: BTreeSet<String> = units_spec(&c["units"]).into_keys().chain(units_spec(&c["infl"]).into_keys()).filter(|d| d != reserve).collect();
        for (k, d) in legs.iter().enumerate() {
            let id = 900 + k as u64;
            let p = f.bank.entry((POOL.to_string(), d.clone())).or_insert(0);
            *p = (*p).max(10u128.pow(36));
            f.pools.insert(id, Pool::Linear { kind: 0, a: d.clone(), b: reserve.into(), num: 1, den: 1 });
            for (din, dout) in [(d.as_str(), reserve), (reserve, d.as_str())] {
                if !go(&mut f, gov, format!("opening the route {din} to {dout}"), json!({ "gov": { "update_trade_info": {
                    "denom": din, "routes": [{ "pool_id": id, "token_denom": dout }], "cooldown": 0, "max_trade_amount": Uint128::MAX } } })) {
                    return;
                }
            }
        }
        for (list, side, x, lim) in [("l", "deflate", "amount_out", "max_amount_in"), ("k", "inflate", "amount_in", "min_amount_out")] {
            for u in out[list].as_array().unwrap() {
                let (d, amt) = (st(&u["d"]), st(&u["u"]));
                let m = json!({ "rebalance": { "trade": { side: { "target_denom": d, x: amt, lim: if d == reserve { "1" } else { amt } } } } });
                if !go(&mut f, mgr, format!("{side} {amt}{d}"), m) {
                    return;
                }
            }
        }
        if !go(&mut f, mgr, "finalize".into(), json!({ "rebalance": { "finalize": {} } })) {
            return;
        }
        self.stats.probes += 1;
        // and then the vault is open again
        let paused = c["paused"] == true && (neg(&c["pauseExp"]) || n(&c["pauseExp"]) > n(&before["now"]));
        let Ok(v) = f.query(CORE, &json!({ "simulate_mint": { "amount": "1000003", "funds": null, "time": null } })) else { return };
        let need = coinmap(&v["fund_spent"]);
        for (d, x) in &need {
            *f.bank.entry(("alice".into(), d.clone())).or_insert(0) += x;
        }
        let got = f.execute(CORE, "alice", &coins(&need), &json!({ "mint": { "amount": "1000003", "receiver": null, "refund_to": null } }));
        if let (Err(e), false) = (got, paused) {
            self.alarm(ids(&["C18"]), i, format!("minting does not reopen after the rebalance: {e}"), &f.trail);
        }
    }

    /// on a fork: nobody does anything for a while, then a holder redeems
    fn redeem(&mut self, i: usize, a: &Value, out: &Value, before: &Value, ch: &Chain) {
        let (s, amt, dt, why) = (st(&a["s"]), n(&a["n"]), n(&a["dt"]) as u64, st(&out["s"]));
        let c = &before["c"];
        if n(&c["supply"]) == 0 || ch.bal(s, IDX) < amt {
            return;
        }
        let mut f = ch.clone();
        for (d, x) in amap(&out["m"]) {
            *f.bank.entry((CORE.to_string(), d)).or_insert(0) += x;
        }
        f.now += dt;
        let pre = f.clone();
        let got = f.execute(CORE, s, &coins(&BTreeMap::from([(IDX.to_string(), amt)])), &json!({ "burn": { "redeem_to": null } }));
        self.stats.probes += 1;
        let idle = n(&before["now"]) as u64 + dt - n(&c["sfLast"]) as u64;
        match (&got, out["b"] == true) {
            (Err(e), true) => self.alarm(ids(&["C19"]), i, format!("{s} cannot redeem {amt} after {dt} s: {e}"), &f.trail),
            (Err(_), false) if why == "overrate" || why == "pow" => self.alarm(
                ids(&["C19"]),
                i,
                format!("burn after {idle} s without any operation: the streaming fee of {} per 10^18 and second exceeds the vault", st(&c["sfRate"])),
                &f.trail,
            ),
            (Ok(()), true) => {
                let want = amap(&out["m2"]);
                for d in units_spec(&c["units"]).into_keys() {
                    let x = f.bal(s, &d) - pre.bal(s, &d);
                    if x != want.get(&d).copied().unwrap_or(0) {
                        self.alarm(ids(&["C19"]), i, format!("{s} redeems {amt} after {dt} s and gets {x}{d} instead of {}", want.get(&d).copied().unwrap_or(0)), &f.trail);
                    }
                }
            }
            _ => {}
        }
    }

    fn instantiate(&mut self, i: usize, a: &Value, ok: bool, why: &str, ch: &Chain, before: &Value) {
        let mut f = ch.clone();
        f.denoms.clear();
        let bank = f.bank.clone();
        let got = f.instantiate(Code::Core, "fresh", "deployer", instantiate_msg(&a["units"], &a["f"], st(&a["gov"]), "uosmo"));
        match (&got, ok) {
            (Ok(()), false) => self.alarm(
                if why == "rates" { ids(&["C08"]) } else { ids(&["C11"]) },
                i,
                format!("instantiation {a} succeeded, the specification refuses it ({why})"),
                &f.trail,
            ),
            (Err(e), true) => self.alarm(ids(&["C08"]), i, format!("instantiation {a} failed ({e}), the specification accepts it"), &f.trail),
            (Ok(()), true) => {
                f.bank = bank.clone();
                let fe = &a["f"];
                let spec = snap_spec(&json!({
                    "now": before["now"], "bank": before["bank"],
                    "c": { "gov": a["gov"], "pending": "", "paused": false, "pauseExp": "-1", "reserve": "uosmo", "supply": "0",
                           "collector": fe["collector"], "mintFee": fe["mint"], "burnFee": fe["burn"], "sf": fe["sf"], "sfRate": fe["rate"],
                           "sfColl": [], "sfFreeze": fe["freeze"], "sfLast": before["now"], "units": a["units"],
                           "reb": false, "trades": [] }
                }));
                match snap_real(&f, "fresh", None) {
                    Ok(mut real) => {
                        if real.get("idx").map(|s| s.as_str()) == Some("factory/fresh/uibcx") {
                            real.insert("idx".into(), IDX.into());
                        }
                        let d = snap_diff(&spec, &real);
                        if !d.is_empty() {
                            let mut b = Ids::new();
                            for (k, _) in &d {
                                b.extend(blame_field("UpdateFee", k, false));
                            }
                            self.alarm(b, i, format!("after instantiation {a}: {d:?}"), &f.trail);
                        }
                    }
                    Err(e) => self.alarm(ids(&["C16"]), i, format!("after instantiation: {e}"), &f.trail),
                }
            }
            _ => {}
        }
    }

    fn query(&mut self, i: usize, tag: &str, a: &Value, ok: bool, out: &Value, before: &Value, ch: &Chain) {
        let t = |v: &Value| -> Value {
            let x: i128 = st(v).parse().unwrap();
            json!(x.max(0) as u64)
        };
        let msg = match tag {
            "QSimMint" => json!({ "simulate_mint": { "amount": st(&a["amt"]),
                "funds": if a["gave"] == true { json!(coins(&amap(&a["funds"]))) } else { Value::Null }, "time": t(&a["t"]) } }),
            "QSimBurn" => json!({ "simulate_burn": { "amount": st(&a["amt"]), "time": t(&a["t"]) } }),
            "QFee" => json!({ "get_fee": { "time": t(a) } }),
            "QPortfolio" => json!({ "get_portfolio": { "time": t(a) } }),
            _ => json!({ "get_config": { "time": t(a) } }),
        };
        let got = ch.query(CORE, &msg);
        self.stats.queries += 1;
        let frozen = before["c"]["sfFreeze"] == true;
        match (got, ok) {
            (Err(e), true) => self.alarm(ids(&["C16"]), i, format!("query {msg} failed ({e}), the specification answers it"), &[]),
            (Ok(v), false) => self.alarm(ids(&["C16"]), i, format!("query {msg} answered {v}, the specification refuses it"), &[]),
            (Err(_), false) => {}
            (Ok(v), true) => {
                let (x, y): (Value, Value) = match tag {
                    "QSimMint" => (
                        json!([st(&out["n"]), js(amap(&out["m"])), js(amap(&out["m2"]))]),
                        json!([st(&v["mint_amount"]), js(coinmap(&v["fund_spent"])), js(coinmap(&v["refund_amount"]))]),
                    ),
                    "QSimBurn" => (
                        json!([st(&out["n"]), js(amap(&out["m"]))]),
                        json!([st(&v["burn_amount"]), js(coinmap(&v["redeem_amount"]))]),
                    ),
                    "QFee" => {
                        let sf = &v["streaming_fee"];
                        let c = &before["c"];
                        (
                            json!([out["b"], js(amap(&out["m"])), if frozen || out["b"] != true { json!("") } else { out["n"].clone() },
                                   st(&c["collector"]), st(&c["mintFee"]), st(&c["burnFee"])]),
                            json!([!sf.is_null(), if sf.is_null() { js(BTreeMap::new()) } else { js(coinmap(&sf["collected"])) },
                                   if frozen || sf.is_null() { json!("") } else { json!(sf["last_collected_at"].to_string()) },
                                   st(&v["collector"]),
                                   if v["mint_fee"].is_null() { "-1".into() } else { undec(&v["mint_fee"]).to_string() },
                                   if v["burn_fee"].is_null() { "-1".into() } else { undec(&v["burn_fee"]).to_string() }]),
                        )
                    }
                    "QPortfolio" => (
                        json!([st(&out["n"]), jsz(units_spec(&out["l"])), js(amap(&out["m"]))]),
                        json!([st(&v["total_supply"]), jsz(units_real(&v["units"])), js(coinmap(&v["assets"]))]),
                    ),
                    _ => (
                        json!([out["b"], if out["b"] == true { st(&out["n"]).to_string() } else { "-1".into() }]),
                        json!([v["paused"]["paused"], if v["paused"]["expires_at"].is_null() { "-1".to_string() } else { v["paused"]["expires_at"].to_string() }]),
                    ),
                };
                if x != y {
                    let b = if tag == "QConfig" { ids(&["C05", "C16"]) } else { ids(&["C16"]) };
                    self.alarm(b, i, format!("query {msg}: specified {x}, answered {y}"), &[]);
                }
            }
        }
    }

    // ---- monitors on the real state, independent of the specification ----------------
    #[allow(clippy::too_many_arguments)]
    fn monitors(&mut self, i: usize, tag: &str, a: &Value, ok: bool, pre: &Chain, ch: &Chain,
                fee0: Option<(String, BTreeMap<String, u128>, bool)>, pf0: Option<Value>, mon: &mut Mon, call: &Call, trail: &[String]) {
        if !ok {
            return;
        }
        self.stats.monitored += 1;
        let supply: u128 = match ch.query(CORE, &json!({ "get_total_supply": {} })) {
            Ok(v) => n(&v),
            Err(e) => {
                self.alarm(ids(&["C16"]), i, format!("get_total_supply: {e}"), trail);
                return;
            }
        };
        // C02
        let sum = ch.supply_of(IDX);
        if sum != supply {
            self.alarm(ids(&["C02"]), i, format!("after {tag}: recorded supply {supply}, tokens in circulation {sum}"), trail);
        }
        // C07: what has accrued changes only by paying it to the collector in office
        let fee1 = fee_view(ch);
        if let (Some((c0, m0, _)), Some((_, m1, _))) = (&fee0, &fee1) {
            let pays = tag == "Realize" || tag == "UpdateFee";
            for d in m0.keys().chain(m1.keys()).collect::<BTreeSet<_>>() {
                let x0 = m0.get(d).copied().unwrap_or(0);
                let x1 = m1.get(d).copied().unwrap_or(0);
                let paid = if pays { ch.bal(c0, d).saturating_sub(pre.bal(c0, d)) } else { 0 };
                if x1 + paid != x0 {
                    let b = if tag == "Finalize" { ids(&["C07", "C15"]) } else { ids(&["C07"]) };
                    self.alarm(b, i, format!("after {tag}: {x0}{d} had accrued, {x1} are on record and {paid} went to {c0}"), trail);
                }
            }
        }
        // C16: the as-of-now portfolio is what the operation worked with
        let pf1 = ch.query(CORE, &json!({ "get_portfolio": { "time": null } })).ok();
        if matches!(tag, "Mint" | "Burn" | "Realize" | "UpdateFee" | "Init") {
            if let (Some(p0), Some(p1)) = (&pf0, &pf1) {
                if units_real(&p0["units"]) != units_real(&p1["units"]) {
                    self.alarm(ids(&["C16"]), i, format!("after {tag}: units {} were announced, {} applied", p0["units"], p1["units"]), trail);
                }
            }
        }
        if tag == "Mint" {
            let sim = pre.query(CORE, &json!({ "simulate_mint": { "amount": st(&a["amt"]), "funds": call.funds, "time": null } }));
            let rcv = if st(&a["rcv"]).is_empty() { call.sender.clone() } else { st(&a["rcv"]).to_string() };
            let delta = ch.bal(&rcv, IDX) - pre.bal(&rcv, IDX);
            let coll = fee0.as_ref().map(|f| f.0.clone()).unwrap_or_default();
            match sim {
                Err(e) => self.alarm(ids(&["C16"]), i, format!("mint succeeded, its simulation fails: {e}"), trail),
                Ok(v) => {
                    if coll != rcv && n(&v["mint_amount"]) != delta {
                        self.alarm(ids(&["C16"]), i, format!("simulated mint {} delivered {delta}", v["mint_amount"]), trail);
                    }
                    for c in &call.funds {
                        let kept = ch.bal(CORE, &c.denom) - pre.bal(CORE, &c.denom);
                        let spent = coinmap(&v["fund_spent"]).get(&c.denom).copied().unwrap_or(0);
                        if kept != spent && st(&a["ref"]) != CORE {
                            self.alarm(ids(&["C16"]), i, format!("simulated deposit {spent}{}, taken {kept}", c.denom), trail);
                        }
                    }
                }
            }
            mon.dust += 1;
        }
        if tag == "Burn" {
            let got = amap(&a["funds"]).get(IDX).copied().unwrap_or(0);
            match pre.query(CORE, &json!({ "simulate_burn": { "amount": got.to_string(), "time": null } })) {
                Err(e) => self.alarm(ids(&["C16"]), i, format!("burn succeeded, its simulation fails: {e}"), trail),
                Ok(v) => {
                    let mut red = coinmap(&v["redeem_amount"]);
                    let all: BTreeSet<String> = DENOMS.iter().map(|d| d.to_string()).chain(red.keys().cloned()).collect();
                    for d in &all {
                        let paid = pre.bal(CORE, d).saturating_sub(ch.bal(CORE, d));
                        let s = red.remove(d).unwrap_or(0);
                        if paid != s && st(&a["to"]) != CORE {
                            self.alarm(ids(&["C16"]), i, format!("simulated redemption {s}{d}, paid {paid}"), trail);
                        }
                    }
                }
            }
        }
        if tag == "Deflate" || tag == "Inflate" {
            mon.dust += 1 + supply / ONE;
        }
        // C01: units in force plus fees accrued are covered, up to rounding of the mints and trades
        if let (Some(p1), Some((_, coll, _))) = (&pf1, &fee1) {
            for (d, u) in units_real(&p1["units"]) {
                let owed = Uint256::from(u) * Uint256::from(supply)
                    + Uint256::from(coll.get(&d).copied().unwrap_or(0)) * Uint256::from(ONE);
                let have = (Uint256::from(ch.bal(CORE, &d)) + Uint256::from(mon.dust)) * Uint256::from(ONE);
                if have < owed {
                    self.alarm(ids(&["C01"]), i, format!("after {tag}: the vault holds {}{d} but owes {} (supply {supply}, unit {u}e-18)",
                        ch.bal(CORE, &d), owed / Uint256::from(ONE)), trail);
                }
            }
        }
        // C08
        if let Ok(f) = ch.query(CORE, &json!({ "get_fee": { "time": null } })) {
            for (k, max) in [("mint_fee", ONE - 1), ("burn_fee", ONE - 1)] {
                if !f[k].is_null() && !(1..=max).contains(&undec(&f[k])) {
                    self.alarm(ids(&["C08"]), i, format!("after {tag}: {k} = {}", f[k]), trail);
                }
            }
            let sf = &f["streaming_fee"];
            if !sf.is_null() && !(1..=21_979_553_000).contains(&undec(&sf["rate"])) {
                self.alarm(ids(&["C08"]), i, format!("after {tag}: streaming rate {}", sf["rate"]), trail);
            }
        }
        self.paging(i, ch);
    }

    /// C16/C17: balances and trade limits as listed, page by page
    fn paging(&mut self, i: usize, ch: &Chain) {
        for who in [ACCTS[i % ACCTS.len()], CORE] {
            match ch.query(CORE, &json!({ "get_balance": { "account": who } })) {
                Ok(v) if n(&v) == ch.bal(who, IDX) => {}
                o => self.alarm(ids(&["C16"]), i, format!("get_balance {who}: {o:?}, bank says {}", ch.bal(who, IDX)), &[]),
            }
        }
        let d = DENOMS[i % DENOMS.len()];
        let mut all: Vec<(String, Value)> = vec![];
        for o in DENOMS {
            if let Ok(v) = ch.query(CORE, &json!({ "get_trade_info": { "denom_in": d, "denom_out": o } })) {
                if !v["trade_info"].is_null() {
                    all.push((o.to_string(), v["trade_info"].clone()));
                }
            }
        }
        all.sort_by(|a, b| a.0.cmp(&b.0));
        let limit = 1 + i % 3;
        for desc in [false, true] {
            let want: Vec<&Value> = if desc { all.iter().rev().map(|x| &x.1).collect() } else { all.iter().map(|x| &x.1).collect() };
            let mut got: Vec<Value> = vec![];
            let mut after = Value::Null;
            for _ in 0..8 {
                let m = json!({ "list_trade_info": { "denom_in": d, "start_after": after, "limit": limit, "order": if desc { "desc" } else { "asc" } } });
                match ch.query(CORE, &m) {
                    Ok(v) => {
                        let page = v.as_array().unwrap().clone();
                        if page.len() > limit {
                            self.alarm(ids(&["C17"]), i, format!("{m}: {} entries", page.len()), &[]);
                        }
                        if page.is_empty() {
                            break;
                        }
                        after = page.last().unwrap()["denom_out"].clone();
                        let full = page.len() == limit;
                        got.extend(page);
                        if !full {
                            break;
                        }
                    }
                    Err(e) => {
                        self.alarm(ids(&["C17"]), i, format!("{m}: {e}"), &[]);
                        break;
                    }
                }
            }
            self.stats.pages += 1;
            if got.iter().collect::<Vec<_>>() != want {
                self.alarm(ids(&["C17"]), i, format!("trade infos of {d} paged by {limit} (desc={desc}): {got:?} instead of {want:?}"), &[]);
            }
        }
    }
}
