//! Script executor: reads NDJSON cases (a list of API calls), runs every call against the real
//! graphbench crate and writes the same events back with the observed results. It judges nothing:
//! whether a result is right is decided by the TLA+ specification.
#![allow(non_snake_case)]
#![allow(clippy::all)]

mod exec;
mod fault;

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // gbharness SCRIPT OUT SCRATCHDIR CASE_TIMEOUT_S
    let script = &args[1];
    let out = &args[2];
    let scratch = args.get(3).cloned().unwrap_or_else(|| "/nonexistent".into());
    let limit: u64 = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(60);
    fault::ignore_file_size_signal();
    std::panic::set_hook(Box::new(|_| {}));

    // Watchdog: the number of the running case and when it started (ms)
    let start = Instant::now();
    let began = Arc::new(AtomicU64::new(0));
    {
        let began = began.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = start.elapsed().as_millis() as u64;
            if now.saturating_sub(began.load(Ordering::Relaxed)) > limit * 1000 {
                eprintln!("HANG");
                std::process::exit(97);
            }
        });
    }

    let script = script.clone();
    let out = out.clone();
    let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let rd = BufReader::new(std::fs::File::open(&script).expect("script"));
        let mut wr = BufWriter::new(std::fs::File::create(&out).expect("out"));
        for line in rd.lines() {
            let line = line.unwrap();
            if line.trim().is_empty() { continue }
            began.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
            let case: Value = serde_json::from_str(&line).expect("bad script");
            let mut ex = exec::Exec::new(&case, &scratch);
            let mut evs = Vec::new();
            for ev in case["ev"].as_array().unwrap() {
                let mut o = ev.as_object().unwrap().clone();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run(ev)));
                match res {
                    Ok(v) => { o.insert("res".into(), v); }
                    Err(p) => {
                        let msg = p.downcast_ref::<String>().cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        if let Some(m) = msg.strip_prefix("HARNESS:").filter(|m| !m.starts_with("no handle")) {
                            eprintln!("HARNESS ERROR {m} in {ev}");
                            std::process::exit(96);
                        }
                        let msg: String = msg.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(160).collect();
                        o.insert("panic".into(), json!(msg));
                    }
                }
                let stop = o.contains_key("panic");
                evs.push(Value::Object(o));
                if stop { break } // the objects are in an unknown state
            }
            let res = json!({"id": case["id"], "ev": evs});
            serde_json::to_writer(&mut wr, &res).unwrap();
            wr.write_all(b"\n").unwrap();
            wr.flush().unwrap();
        }
    }).unwrap();
    if th.join().is_err() {
        std::process::exit(96);
    }
}
