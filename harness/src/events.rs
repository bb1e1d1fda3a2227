//! E01: what the event of an accepted call has to say.
use crate::chain::{parse_coin, Chain};
use crate::coreplay::{n, st};
use serde_json::Value;

/// `own` spells values only the replayer knows (roots, signers); `came` tells what reached the caller
pub fn faults(ev: &Value, ch: &Chain, own: impl Fn(&str, &Value) -> Option<String>, came: impl Fn(&str) -> Option<i128>) -> Vec<String> {
    let Some((_, said)) = ch.said.first() else { return vec!["no event".into()] };
    let mut out = vec![];
    for a in ev.as_array().unwrap() {
        let (k, t, e) = (st(&a["k"]), st(&a["t"]), n(&a["e"]));
        let got: Vec<&String> = said.iter().filter(|(x, _)| x == k).map(|(_, v)| v).collect();
        if got.is_empty() {
            out.push(format!("{k} is missing"));
        }
        for g in got {
            let (good, want) = match t {
                "text" | "number" if own(k, a).is_some() => {
                    let w = own(k, a).unwrap();
                    (*g == w, w)
                }
                "text" => (g == st(&a["s"]), st(&a["s"]).to_string()),
                "number" => (g.parse::<u128>().map(|x| x.abs_diff(n(&a["n"])) <= e).unwrap_or(false), format!("{} (give or take {e})", st(&a["n"]))),
                _ => {
                    let want = if st(&a["n"]) == "-1" { came(st(&a["s"])) } else { Some(n(&a["n"]) as i128) };
                    let Some(want) = want else { continue };
                    let good = parse_coin(g).map(|(x, d)| d == st(&a["s"]) && (x as i128).abs_diff(want) <= e).unwrap_or(false);
                    (good, format!("{want}{} (give or take {e})", st(&a["s"])))
                }
            };
            if !good {
                out.push(format!("{k} is {g:?} instead of {want}"));
            }
        }
    }
    out
}
