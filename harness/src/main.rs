mod airplay;
mod chain;
mod coreplay;
mod events;
mod itf;
mod market;
mod pagesplay;
mod periplay;
#[cfg(feature = "pool")]
mod poolplay;
mod report;
mod upplay;
mod weighted;
mod wire;

use report::{Collect, Stats};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

/// pack ITF files into one line per trace: {"model":..,"trace":[..]}
fn pack(model: &str, out: &str, files: &[String]) -> Result<(), String> {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).map_err(|e| e.to_string())?);
    for f in files {
        let states = itf::load(f)?;
        let name = std::path::Path::new(f).file_stem().unwrap().to_string_lossy().to_string();
        let line = json!({ "model": model, "name": name, "trace": itf::pack(&states) });
        writeln!(o, "{line}").map_err(|e| e.to_string())?;
    }
    Ok(())
}

fn replay_line(line: &str, file: &str, sink: &Collect, stats: &mut Stats) {
    let v: Value = serde_json::from_str(line).expect("corpus line");
    let states = itf::unpack(&v["trace"]);
    let name = format!("{}:{}", file, v["name"].as_str().unwrap_or("?"));
    match v["model"].as_str().unwrap() {
        "core" => coreplay::Replay { sink, stats, name }.run(&states),
        "airdrop" => airplay::Replay { sink, stats, name }.run(&states),
        "peri" => periplay::Replay { sink, stats, name }.run(&states),
        "pages" => pagesplay::Replay { sink, stats, name }.run(&states),
        "upgrade" => upplay::Replay { sink, stats, name }.run(&states),
        #[cfg(feature = "pool")]
        "pool" => poolplay::Replay { sink, stats, name }.run(&states),
        #[cfg(not(feature = "pool"))]
        "pool" => panic!("the replayer was built without the pool packages"),
        m => panic!("unknown model {m}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("pack") => match pack(&args[2], &args[3], &args[4..]) {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{e}");
                2
            }
        },
        // judge REPORT MADE: is what an SDK made of recorded requests what was asked?
        Some("judge") => match wire::judge(&args[3], &args[2]) {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{e}");
                2
            }
        },
        // replay REPORT FILE... : replays packed corpora, writes a report
        Some("replay") => {
            let sink = Collect::default();
            let mut lines: Vec<(String, String)> = vec![];
            let mut only = None;
            let mut k = 3;
            if args.get(3).map(|s| s.as_str()) == Some("--only") {
                only = Some(args[4].clone());
                k = 5;
            }
            let sink = Collect { only, ..sink };
            for f in &args[k..] {
                let r = std::io::BufReader::new(std::fs::File::open(f).expect("corpus"));
                for l in r.lines() {
                    lines.push((f.clone(), l.unwrap()));
                }
            }
            // a step that does not come to an end must not keep the others from being reported
            let limit = std::time::Duration::from_secs(std::env::var("MBT_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(100_000));
            let (lines, sink) = (Arc::new(lines), Arc::new(sink));
            let next = Arc::new(AtomicUsize::new(0));
            let (done, wait) = std::sync::mpsc::channel();
            let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
            for _ in 0..workers {
                let (lines, sink, next, done) = (lines.clone(), sink.clone(), next.clone(), done.clone());
                std::thread::spawn(move || {
                    loop {
                        let k = next.fetch_add(1, SeqCst);
                        if k >= lines.len() {
                            break;
                        }
                        let (f, l) = &lines[k];
                        let mut st = Stats::default();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay_line(l, f, &sink, &mut st)));
                        let bad = r.err().map(|p| {
                            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            format!("{f} line {k}: {m}")
                        });
                        let _ = done.send(Some((st, bad)));
                    }
                    let _ = done.send(None);
                });
            }
            let start = std::time::Instant::now();
            let (mut total, mut bad, mut left) = (Stats::default(), Vec::<String>::new(), workers);
            while left > 0 {
                match wait.recv_timeout(limit.saturating_sub(start.elapsed())) {
                    Ok(Some((st, b))) => {
                        total.add(&st);
                        bad.extend(b);
                    }
                    Ok(None) => left -= 1,
                    Err(_) => {
                        bad.push(format!("stopped after {} s with {left} behaviours unfinished", start.elapsed().as_secs()));
                        break;
                    }
                }
            }
            wire::write();
            let rep = json!({
                "stats": total.json(),
                "alarms": sink.list.lock().unwrap().iter().map(|a| a.json()).collect::<Vec<_>>(),
                "alarm_counts": *sink.total.lock().unwrap(),
                "harness_errors": bad,
            });
            std::fs::write(&args[2], serde_json::to_string_pretty(&rep).unwrap()).expect("report");
            0
        }
        _ => {
            eprintln!("usage: ibcx-mbt pack MODEL OUT ITF... | replay REPORT CORPUS...");
            2
        }
    };
    std::process::exit(code);
}
