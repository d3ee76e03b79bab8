//! Verification driver for ink! analyzer: executes ndjson jobs against the real crates.
//! It contains no oracle: it only runs the code and reports what was observed.
mod lsp;
mod ops;

use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic;
use std::sync::mpsc;
use std::sync::{Arc, Mutex};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => {
            let msg = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown panic".to_owned());
            json!({ "panic": msg })
        }
    }
}

pub fn last_panics() -> Arc<Mutex<Vec<String>>> {
    static CELL: std::sync::OnceLock<Arc<Mutex<Vec<String>>>> = std::sync::OnceLock::new();
    CELL.get_or_init(|| Arc::new(Mutex::new(Vec::new()))).clone()
}

fn main() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_owned());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{msg} @ {loc}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        if std::thread::current().name().unwrap_or_default().starts_with("server-") {
            last_panics().lock().unwrap().push(format!(
                "{}|{}",
                std::thread::current().name().unwrap_or_default(),
                text
            ));
        }
    }));
    let workers: usize = std::env::var("VH_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(8);
    let (tx, rx) = mpsc::sync_channel::<(usize, String)>(256);
    let rx = Arc::new(Mutex::new(rx));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::io::stdout())));
    let mut handles = Vec::new();
    for w in 0..workers {
        let rx = rx.clone();
        let out = out.clone();
        handles.push(
            std::thread::Builder::new()
                .name(format!("worker-{w}"))
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let job = rx.lock().unwrap().recv();
                    let Ok((i, line)) = job else { break };
                    let job: Value = match serde_json::from_str(&line) {
                        Ok(v) => v,
                        Err(e) => {
                            eprintln!("bad job {i}: {e}");
                            std::process::exit(3);
                        }
                    };
                    // Announce the job so that a process abort can be attributed.
                    {
                        let mut o = out.lock().unwrap();
                        writeln!(o, "B {i}").unwrap();
                        o.flush().unwrap();
                    }
                    let res = guarded(|| ops::run(&job));
                    let mut o = out.lock().unwrap();
                    writeln!(o, "R {i} {res}").unwrap();
                    o.flush().unwrap();
                })
                .unwrap(),
        );
    }
    for (i, line) in std::io::stdin().lock().lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        tx.send((i, line)).unwrap();
    }
    drop(tx);
    for h in handles {
        let _ = h.join();
    }
}
