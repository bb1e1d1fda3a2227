//! What accounts ask of the contracts and what they are answered, as it travels over the wire:
//! recorded while the behaviours are replayed (MBT_WIRE names the file), a few of every shape.
//! `judge` compares what an SDK made of the same requests with what was asked.
use crate::chain::{es, Code, Fail};
use cosmwasm_std::{from_json, Coin};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

const KEEP: usize = 12;

type Kept = BTreeMap<String, BTreeMap<u64, Value>>;

fn log() -> Option<&'static Mutex<Kept>> {
    static LOG: OnceLock<Option<Mutex<Kept>>> = OnceLock::new();
    LOG.get_or_init(|| std::env::var("MBT_WIRE").ok().map(|_| Mutex::new(Kept::new()))).as_ref()
}

pub fn name(c: Code) -> &'static str {
    match c {
        Code::Core => "Core",
        Code::Airdrop => "Airdrop",
        Code::Periphery => "Periphery",
    }
}

/// the structure of a value, without its numbers and names
fn shape(v: &Value) -> String {
    match v {
        Value::Null => "n".into(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => if n.as_u64() == Some(0) { "z" } else { "0" }.into(),
        Value::String(s) => match s.as_str() { "" => "e", "0" => "o", _ => "s" }.into(),
        Value::Array(a) => format!("[{}{}]", a.first().map(shape).unwrap_or_default(), if a.len() > 1 { "+" } else { "" }),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}:{}", shape(v))).collect::<Vec<_>>().join(",")),
    }
}

/// numbers that an application in JavaScript can say
fn sayable(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.as_u64().map_or(false, |x| x < 1 << 53),
        Value::Array(a) => a.iter().all(sayable),
        Value::Object(o) => o.values().all(sayable),
        _ => true,
    }
}

/// the request as the contract understands it
pub fn meaning(contract: &str, kind: &str, bin: &[u8]) -> Result<String, Fail> {
    macro_rules! read {
        ($t:ty) => {
            from_json::<$t>(bin).map(|m| format!("{m:?}")).map_err(es)
        };
    }
    match (contract, kind) {
        ("Core", "execute") => read!(ibcx_interface::core::ExecuteMsg),
        ("Core", "query") => read!(ibcx_interface::core::QueryMsg),
        ("Core", "instantiate") => read!(ibcx_interface::core::InstantiateMsg),
        ("Airdrop", "execute") => read!(ibcx_interface::airdrop::ExecuteMsg),
        ("Airdrop", "query") => read!(ibcx_interface::airdrop::QueryMsg),
        ("Periphery", "execute") => read!(ibcx_interface::periphery::ExecuteMsg),
        ("Periphery", "query") => read!(ibcx_interface::periphery::QueryMsg),
        _ => Err("no such message".into()),
    }
}

fn keep(contract: &str, kind: &str, addr: &str, sender: &str, funds: &[Coin], msg: &Value, answer: Option<&Value>) {
    let Some(log) = log() else { return };
    let funds: Vec<Value> = funds.iter().map(|c| json!({ "denom": c.denom, "amount": c.amount.to_string() })).collect();
    let sig = format!("{contract} {kind} {} {} {}", shape(&json!(funds)), shape(msg), answer.map(shape).unwrap_or("-".into()));
    let v = json!({ "contract": contract, "kind": kind, "addr": addr, "sender": sender, "funds": funds, "msg": msg, "answer": answer });
    if !sayable(&v) || meaning(contract, kind, msg.to_string().as_bytes()).is_err() {
        return;
    }
    let mut l = log.lock().unwrap();
    let m = l.entry(sig).or_default();
    m.insert(crate::report::hash_of(v.to_string()), v);
    if m.len() > KEEP {
        m.pop_last();
    }
}

pub fn note(code: Code, kind: &str, addr: &str, sender: &str, funds: &[Coin], msg: &Value, answer: Option<&Value>) {
    if log().is_none() {
        return;
    }
    let c = name(code);
    keep(c, kind, addr, sender, funds, msg, answer);
    // the same request with arguments left out, or with values that programs take for nothing
    if let Some((k, Value::Object(args))) = msg.as_object().and_then(|o| o.iter().next()) {
        for a in args.keys().filter(|a| !args[*a].is_null()) {
            let empty = match &args[a] {
                Value::Number(_) => json!(0),
                Value::String(_) => json!(""),
                Value::Array(_) => json!([]),
                _ => Value::Null,
            };
            for v in [Value::Null, empty, json!("0")] {
                let mut other = args.clone();
                other[a] = v;
                keep(c, kind, addr, sender, funds, &json!({ k: other }), None);
            }
        }
    }
}

pub fn write() {
    if let (Some(log), Ok(path)) = (log(), std::env::var("MBT_WIRE")) {
        let l = log.lock().unwrap();
        let t: String = l.values().flat_map(|m| m.values()).map(|v| v.to_string() + "\n").collect();
        std::fs::write(path, t).expect("wire log");
    }
}

/// MADE: one line per request, {"asked": request, "made": [{"via","addr","sender","msg","funds","given"}]}
pub fn judge(file: &str, report: &str) -> Result<(), String> {
    let (mut n, mut bad) = (0u64, vec![]);
    for l in std::fs::read_to_string(file).map_err(es)?.lines() {
        let v: Value = serde_json::from_str(l).map_err(es)?;
        let a = &v["asked"];
        let (c, k) = (a["contract"].as_str().unwrap(), a["kind"].as_str().unwrap());
        let want = meaning(c, k, a["msg"].to_string().as_bytes())?;
        for m in v["made"].as_array().unwrap() {
            n += 1;
            let got = meaning(c, k, m["msg"].as_str().unwrap_or("").as_bytes());
            let same = got.as_ref() == Ok(&want)
                && m["addr"] == a["addr"]
                && (k == "query" || (m["sender"] == a["sender"] && m["funds"] == m["given"]));
            if !same {
                bad.push(json!({ "asked": a, "made": m, "understood": got.unwrap_or_else(|e| format!("refused: {e}")), "should_be": want }));
            }
        }
    }
    std::fs::write(report, json!({ "compared": n, "different": bad }).to_string()).map_err(es)
}
