//! ITF JSON (as written by `quint run --out-itf`) to plain JSON: big integers become
//! decimal strings, maps become arrays of pairs, tuples and sets become arrays.
use serde_json::{json, Map, Value};

pub fn plain(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            if let Some(b) = o.get("#bigint") {
                return json!(b.as_str().unwrap());
            }
            if let Some(m) = o.get("#map") {
                return Value::Array(
                    m.as_array().unwrap().iter().map(|kv| json!([plain(&kv[0]), plain(&kv[1])])).collect(),
                );
            }
            for k in ["#tup", "#set"] {
                if let Some(t) = o.get(k) {
                    return Value::Array(t.as_array().unwrap().iter().map(plain).collect());
                }
            }
            let mut r = Map::new();
            for (k, x) in o {
                if !k.starts_with('#') {
                    r.insert(k.clone(), plain(x));
                }
            }
            Value::Object(r)
        }
        Value::Array(a) => Value::Array(a.iter().map(plain).collect()),
        Value::Number(n) => json!(n.to_string()),
        o => o.clone(),
    }
}

/// one trace = list of states; keep only variables (no #meta, no mbt:: noise)
pub fn load(path: &str) -> Result<Vec<Value>, String> {
    let s = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
    let v: Value = serde_json::from_slice(&s).map_err(|e| format!("{path}: {e}"))?;
    Ok(v["states"].as_array().ok_or("no states")?.iter().map(plain).collect())
}

/// `base` patched to give `next`: only what changed, recursively for objects
pub fn diff(base: &Value, next: &Value) -> Option<Value> {
    if base == next {
        return None;
    }
    if let (Value::Object(b), Value::Object(n)) = (base, next) {
        if b.len() == n.len() && b.keys().eq(n.keys()) && !n.contains_key("tag") {
            let mut r = Map::new();
            for (k, x) in n {
                if let Some(d) = diff(&b[k], x) {
                    r.insert(k.clone(), d);
                }
            }
            r.insert("~".into(), Value::Null);
            return Some(Value::Object(r));
        }
    }
    // association lists (maps): only changed entries
    if let (Value::Array(b), Value::Array(n)) = (base, next) {
        if is_map(b) && is_map(n) && b.len() > 4 {
            let old: std::collections::HashMap<String, &Value> = b.iter().map(|e| (e[0].to_string(), &e[1])).collect();
            let new: std::collections::HashSet<String> = n.iter().map(|e| e[0].to_string()).collect();
            let gone: Vec<&Value> = b.iter().filter(|e| !new.contains(&e[0].to_string())).map(|e| &e[0]).collect();
            let ch: Vec<&Value> = n.iter().filter(|e| old.get(&e[0].to_string()) != Some(&&e[1])).collect();
            return Some(json!({ "~m": ch, "~g": gone }));
        }
    }
    Some(next.clone())
}

fn is_map(a: &[Value]) -> bool {
    a.iter().all(|e| e.as_array().map_or(false, |x| x.len() == 2))
}

pub fn patch(base: &Value, d: &Value) -> Value {
    if let Value::Object(o) = d {
        if o.contains_key("~") {
            let mut r = base.as_object().unwrap().clone();
            for (k, x) in o {
                if k != "~" {
                    let p = patch(&base[k], x);
                    r.insert(k.clone(), p);
                }
            }
            return Value::Object(r);
        }
        if let Some(ch) = o.get("~m") {
            let mut r: Vec<Value> = base.as_array().unwrap().clone();
            for g in o["~g"].as_array().unwrap() {
                r.retain(|e| &e[0] != g);
            }
            for c in ch.as_array().unwrap() {
                match r.iter_mut().find(|e| e[0] == c[0]) {
                    Some(e) => *e = c.clone(),
                    None => r.push(c.clone()),
                }
            }
            return Value::Array(r);
        }
    }
    d.clone()
}

/// a packed trace: first state in full, then differences
pub fn pack(states: &[Value]) -> Value {
    let mut out = vec![states[0].clone()];
    for w in states.windows(2) {
        out.push(diff(&w[0], &w[1]).unwrap_or(json!({"~": null})));
    }
    Value::Array(out)
}

pub fn unpack(t: &Value) -> Vec<Value> {
    let a = t.as_array().unwrap();
    let mut out: Vec<Value> = vec![a[0].clone()];
    for d in &a[1..] {
        let n = patch(out.last().unwrap(), d);
        out.push(n);
    }
    out
}
