//! The specification's pools and routes.
use std::collections::BTreeMap;

use serde_json::Value;

use crate::chain::Pool;
use crate::coreplay::{n, st};

/// weights of the specification's pools are not scaled down
pub fn spec_wpools(m: &Value) -> BTreeMap<u64, Pool> {
    m.as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let p = &e[1];
            let a: Vec<(String, u128, u128)> =
                p["assets"].as_array().unwrap().iter().map(|x| (st(&x["d"]).to_string(), n(&x["b"]), n(&x["w"]))).collect();
            let kind = n(&p["kind"]) as u8;
            let q = if kind == 0 {
                Pool::Weighted { assets: a, fee: n(&p["fee"]) }
            } else {
                Pool::Linear { kind, a: a[0].0.clone(), b: a[1].0.clone(), num: n(&p["num"]), den: n(&p["den"]) }
            };
            (n(&e[0]) as u64, q)
        })
        .collect()
}

pub const DENOMS: [&str; 7] = ["uosmo", "uatom", "ujuno", "ustars", "uos", "uion", "uatoms"];
type Edge = (u64, &'static str, &'static str);
fn up(d: &str, v: usize) -> Vec<Edge> {
    let l: Vec<Vec<Edge>> = match d {
        "uosmo" => vec![vec![]],
        "uatom" => vec![vec![(1, "uatom", "uosmo")], vec![(3, "uatom", "ujuno"), (2, "ujuno", "uosmo")]],
        "ujuno" => vec![vec![(2, "ujuno", "uosmo")], vec![(3, "ujuno", "uatom"), (1, "uatom", "uosmo")]],
        "ustars" => vec![vec![(4, "ustars", "uosmo")], vec![(4, "ustars", "uos"), (4, "uos", "uosmo")]],
        "uos" => vec![vec![(4, "uos", "uosmo")]],
        "uion" => vec![vec![(5, "uion", "uosmo")]],
        "uatoms" => vec![
            vec![(6, "uatoms", "uatom"), (1, "uatom", "uosmo")],
            vec![(6, "uatoms", "uatom"), (3, "uatom", "ujuno"), (2, "ujuno", "uosmo")],
        ],
        o => panic!("no path for {o}"),
    };
    l[v % l.len()].clone()
}
/// the specification's routes (operator `path`)
pub fn path(f: &str, t: &str, v: usize) -> Vec<Edge> {
    let short: Option<Edge> = match (f, t) {
        ("uatom", "ujuno") => Some((3, "uatom", "ujuno")),
        ("ujuno", "uatom") => Some((3, "ujuno", "uatom")),
        ("ustars", "uos") => Some((4, "ustars", "uos")),
        ("uos", "ustars") => Some((4, "uos", "ustars")),
        ("uatom", "uatoms") => Some((6, "uatom", "uatoms")),
        ("uatoms", "uatom") => Some((6, "uatoms", "uatom")),
        _ => None,
    };
    if v == 0 && short.is_some() {
        return vec![short.unwrap()];
    }
    let mut p = up(f, v);
    p.extend(up(t, if f == "uosmo" { v } else { 0 }).into_iter().rev().map(|(p, a, b)| (p, b, a)));
    p
}
/// (from, to, pools and denoms): paying with `d` when buying, for `d` when selling
pub fn routes(d: &str, v: usize, buy: bool) -> Vec<(String, String, Vec<(u64, String)>)> {
    DENOMS
        .iter()
        .filter(|x| **x != d)
        .map(|x| {
            let (f, t) = if buy { (d, *x) } else { (*x, d) };
            let hops = path(f, t, v).into_iter().map(|(p, a, b)| (p, if buy { a } else { b }.to_string())).collect();
            (f.to_string(), t.to_string(), hops)
        })
        .collect()
}
