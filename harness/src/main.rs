//! Thin driver: reads scenarios (NDJSON) and runs each against the real osm-io library,
//! printing one NDJSON observation per scenario. It never decides whether an observation
//! is right: the TLA+ specifications do.
mod elem;
mod heap;
mod scen;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

use serde_json::{json, Value};

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

type Job = (Value, mpsc::Sender<Value>);

/// a thread that runs scenarios one after another
fn worker(stack: usize) -> mpsc::Sender<Job> {
    let (tx, rx) = mpsc::channel::<Job>();
    std::thread::Builder::new()
        .name("scenario".into())
        .stack_size(stack)
        .spawn(move || {
            for (sc, reply) in rx {
                let r = catch_unwind(AssertUnwindSafe(|| scen::run(&sc)));
                let v = match r {
                    Ok(Ok(v)) => v,
                    Ok(Err(e)) => json!({"err": format!("{e:#}")}),
                    Err(p) => json!({"panic": panic_text(p)}),
                };
                let _ = reply.send(v);
            }
        })
        .unwrap();
    tx
}

fn main() {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    if std::env::var("OSMDRV_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let path = std::env::args().nth(1).expect("usage: osmdrv scenarios.ndjson [skip]");
    let skip: usize = std::env::args().nth(2).map(|s| s.parse().unwrap()).unwrap_or(0);
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let out = std::io::stdout();
    let mut shared: Option<mpsc::Sender<Job>> = None;
    for (n, line) in f.lines().enumerate() {
        let line = line.unwrap();
        if n < skip || line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).unwrap();
        let timeout = sc.get("timeout_ms").and_then(|x| x.as_u64()).unwrap_or(60_000);
        // scenarios share a thread, so that state the library keeps for a thread meets the next scenario
        let stack = sc.get("stack_kb").and_then(|x| x.as_u64()).map(|k| k as usize * 1024);
        let (tx, rx) = mpsc::channel();
        let start = std::time::Instant::now();
        match stack {
            Some(n) => worker(n).send((sc.clone(), tx)).unwrap(),
            None => {
                let w = shared.get_or_insert_with(|| worker(256 << 20));
                if let Err(e) = w.send((sc.clone(), tx)) {
                    let w = worker(256 << 20);
                    w.send(e.0).unwrap();
                    shared = Some(w);
                }
            }
        }
        let (mut v, hang) = match rx.recv_timeout(Duration::from_millis(timeout)) {
            Ok(v) => (v, false),
            Err(mpsc::RecvTimeoutError::Timeout) => (json!({"hang": true, "partial": scen::partial()}), true),
            Err(_) => (json!({"panic": "scenario thread died"}), false),
        };
        v["line"] = json!(n);
        v["ms"] = json!(start.elapsed().as_millis() as u64);
        let mut o = out.lock();
        writeln!(o, "{}", v).unwrap();
        o.flush().unwrap();
        if hang {
            std::process::exit(3);
        }
    }
    std::process::exit(0);
}
