//! Runs cases one by one and records what happened, one ndjson line per case.
use crate::json::{dump, quote, J};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

/// Runs `f`, turning a panic in the code under test into data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone()),
    }
}

pub fn drive(run: impl Fn(&J) -> String) {
    std::panic::set_hook(Box::new(|info| {
        crate::untracked(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file().rsplit('/').next().unwrap_or("").to_string();
                    format!(" at {}:{}", f, l.line())
                })
                .unwrap_or_default();
            let mut g = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner());
            *g = format!("{msg}{loc}");
        });
    }));

    let args: Vec<String> = std::env::args().collect();
    let cases = BufReader::new(File::open(&args[1]).expect("cases file"));
    let start: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let out = Arc::new(Mutex::new(
        OpenOptions::new()
            .create(true)
            .append(true)
            .open(&args[2])
            .expect("out file"),
    ));
    let limit = Duration::from_secs(
        std::env::var("CASE_LIMIT_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(20),
    );

    // watchdog: a case that does not finish is recorded by the runner (exit code 97)
    let began = Instant::now();
    let tick = Arc::new(AtomicU64::new(0));
    {
        let tick = tick.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let t = tick.load(Ordering::SeqCst);
            let now = began.elapsed().as_millis() as u64;
            if now.saturating_sub(t) > limit.as_millis() as u64 {
                std::process::exit(97);
            }
        });
    }

    for (n, line) in cases.lines().enumerate() {
        let line = line.expect("read");
        if n < start {
            continue;
        }
        tick.store(began.elapsed().as_millis() as u64, Ordering::SeqCst);
        let case = J::parse(&line).unwrap_or_else(|e| {
            eprintln!("harness: case {n}: {e}");
            std::process::exit(3)
        });
        crate::fx::take_bad();
        let res = guard(|| run(&case));
        let bad = crate::fx::take_bad();
        let (ok, why, body) = match res {
            Ok(b) if !bad => (1, String::new(), b),
            Ok(_) => (0, "result not finite or out of range".to_string(), "{}".into()),
            Err(m) if m.starts_with("harness") => {
                eprintln!("case {n}: {m}");
                std::process::exit(3)
            }
            Err(m) => (0, format!("panic: {m}"), "{}".into()),
        };
        let rec = format!(
            "{{\"n\":{n},\"ok\":{ok},\"why\":{},\"in\":{},\"out\":{}}}\n",
            quote(&why),
            dump(&case),
            body
        );
        out.lock().unwrap().write_all(rec.as_bytes()).expect("write");
    }
}
