//! Alarms, statistics, replay files.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Alarm {
    pub props: Vec<String>,
    pub trace: String,
    pub step: usize,
    pub what: String,
    pub trail: Vec<String>,
}

impl Alarm {
    pub fn json(&self) -> Value {
        json!({ "properties": self.props, "trace": self.trace, "step": self.step, "what": self.what, "messages": self.trail })
    }
}

pub trait Sink: Sync {
    fn alarm(&self, a: Alarm);
}

#[derive(Default)]
pub struct Collect {
    /// keep the details of alarms about this property only
    pub only: Option<String>,
    pub list: Mutex<Vec<Alarm>>,
    pub kinds: Mutex<BTreeMap<String, u64>>,
    pub total: Mutex<BTreeMap<String, u64>>,
}

impl Sink for Collect {
    fn alarm(&self, a: Alarm) {
        for p in &a.props {
            *self.total.lock().unwrap().entry(p.clone()).or_default() += 1;
        }
        if let Some(o) = &self.only {
            if !a.props.contains(o) {
                return;
            }
        }
        // keep a few of every kind, so that no kind crowds out another
        let kind = match self.only {
            Some(_) => a.what.chars().filter(|c| !c.is_ascii_digit()).take(160).collect(),
            None => String::new(),
        } + &a.props.join(",");
        let mut kinds = self.kinds.lock().unwrap();
        let n = kinds.entry(kind).or_default();
        *n += 1;
        let mut l = self.list.lock().unwrap();
        if *n <= if self.only.is_some() { 200 } else { 8 } && l.len() < 20_000 {
            l.push(a);
        }
    }
}

/// what was exercised for one property: how often, how many distinct cases, a few of them
#[derive(Default, Clone)]
pub struct Cover {
    pub n: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
}

pub fn hash_of<T: Hash>(x: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cover: BTreeMap<&'static str, Cover>,
    pub traces: u64,
    pub steps: u64,
    pub diverged: u64,
    pub compared: u64,
    pub monitored: u64,
    pub probes: u64,
    pub queries: u64,
    pub pages: u64,
    pub ops: BTreeMap<String, u64>,
}

impl Stats {
    pub fn step(&mut self, tag: &str, ok: bool, why: &str) {
        self.steps += 1;
        let k = if ok { tag.to_string() } else { format!("{tag}!{why}") };
        *self.ops.entry(k).or_default() += 1;
    }
    /// one non-trivial evaluation of a property on the case identified by `key`
    pub fn hit(&mut self, id: &'static str, key: u64, sample: impl FnOnce() -> String) {
        let c = self.cover.entry(id).or_default();
        c.n += 1;
        if c.seen.insert(key) && c.samples.len() < 4 && c.seen.len() % 7 == 1 {
            c.samples.push(sample().chars().take(600).collect());
        }
    }
    pub fn add(&mut self, o: &Stats) {
        for (k, v) in &o.cover {
            let c = self.cover.entry(k).or_default();
            c.n += v.n;
            c.seen.extend(v.seen.iter());
            for s in &v.samples {
                if c.samples.len() < 6 {
                    c.samples.push(s.clone());
                }
            }
        }
        self.traces += o.traces;
        self.steps += o.steps;
        self.diverged += o.diverged;
        self.compared += o.compared;
        self.monitored += o.monitored;
        self.probes += o.probes;
        self.queries += o.queries;
        self.pages += o.pages;
        for (k, v) in &o.ops {
            *self.ops.entry(k.clone()).or_default() += v;
        }
    }
    pub fn json(&self) -> Value {
        json!({ "traces": self.traces, "steps": self.steps, "diverged": self.diverged, "states_compared": self.compared,
                "states_monitored": self.monitored, "fork_probes": self.probes, "queries_compared": self.queries,
                "page_walks": self.pages, "operations": self.ops,
                "cover": self.cover.iter().map(|(k, c)| (k.to_string(), json!({ "evaluations": c.n, "distinct": c.seen.len(), "samples": c.samples }))).collect::<BTreeMap<_, _>>() })
    }
}
