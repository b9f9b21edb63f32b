//! Executes operations on the real library and records what can be observed.
//!
//!   pnexec run  DOCS OPS  FROM     one JSON operation per line of OPS, from line FROM on
//!   pnexec many DOCS OPS  THREADS SEED STEPS WINDOW  the same operations from many threads at once
//!
//! Every line of the output is one observation.  Strings are arrays of code
//! points; optional values arrays of length 0 or 1.  A panic is an observation.

mod exec;

use serde_json::Value;
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

fn lines(path: &str) -> Vec<String> {
    std::io::BufReader::new(std::fs::File::open(path).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let docs: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let ops = lines(&args[3]);

    match args[1].as_str() {
        "run" => {
            let from: usize = args[4].parse().unwrap();
            let limit = Duration::from_secs(
                std::env::var("PN_LIMIT")
                    .ok()
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(20),
            );
            let at = Arc::new(AtomicI64::new(-1));
            let since = Arc::new(AtomicU64::new(0));
            let start = Instant::now();
            {
                // An operation that does not come back is ended here: exit code 77.
                let (at, since) = (at.clone(), since.clone());
                std::thread::spawn(move || {
                    loop {
                        std::thread::sleep(Duration::from_millis(200));
                        let i = at.load(Ordering::SeqCst);
                        let began = Duration::from_millis(since.load(Ordering::SeqCst));
                        if i >= 0
                            && start.elapsed() > began + limit
                            && at.load(Ordering::SeqCst) == i
                        {
                            std::process::exit(77);
                        }
                    }
                });
            }
            // Deep recursion is the caller's business, not the library's: a roomy stack.
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut env = exec::Env::new(docs);
                    let stdout = std::io::stdout();
                    let mut out = BufWriter::new(stdout.lock());
                    for (i, line) in ops.iter().enumerate().skip(from) {
                        since.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        at.store(i as i64, Ordering::SeqCst);
                        let op: Value = serde_json::from_str(line).unwrap();
                        let o = env.exec(&op);
                        at.store(-1, Ordering::SeqCst);
                        writeln!(out, "{o}").unwrap();
                        // Keep what was observed, should the next operation end the process.
                        out.flush().unwrap();
                    }
                })
                .unwrap()
                .join()
                .unwrap();
        }
        "many" => {
            let number = |k: usize| args[k].parse::<usize>().unwrap();
            let (threads, seed, steps, window) = (number(4), number(5), number(6), number(7));
            // In step: no thread begins a call before all have ended the one before.
            let step = args.get(8).is_some_and(|a| a == "step");
            let arrived = Arc::new(AtomicU64::new(0));
            let ops: Arc<Vec<Value>> = Arc::new(
                ops.iter()
                    .map(|l| serde_json::from_str(l).unwrap())
                    .collect(),
            );
            let mut env = exec::Env::new(docs);
            env.prepare_given();
            let env = Arc::new(env);
            // Orders the starts and ends of calls across threads.
            let ticket = Arc::new(AtomicU64::new(1));
            let barrier = Arc::new(Barrier::new(threads));
            let out = Arc::new(Mutex::new(BufWriter::new(std::io::stdout())));
            let workers: Vec<_> = (0..threads)
                .map(|t| {
                    let (ops, env, barrier, out, ticket) =
                        (ops.clone(), env.clone(), barrier.clone(), out.clone(), ticket.clone());
                    let arrived = arrived.clone();
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn(move || {
                            // All threads move through the operations together, each in
                            // its own order among the few that are next to each other.
                            let n = ops.len();
                            let mut x = (seed * 1000 + t) as u64 ^ 0x9e37_79b9_7f4a_7c15;
                            let mut random = |below: usize| {
                                x ^= x << 13;
                                x ^= x >> 7;
                                x ^= x << 17;
                                (x >> 11) as usize % below
                            };
                            let mut seen = Vec::with_capacity(steps);
                            let mut texts = HashMap::new();
                            barrier.wait();
                            for k in 0..steps {
                                if step {
                                    // Busy waiting, so that the calls begin together.
                                    let all = (threads * (k + 1)) as u64;
                                    arrived.fetch_add(1, Ordering::SeqCst);
                                    let mut spins = 0u32;
                                    while arrived.load(Ordering::SeqCst) < all {
                                        spins += 1;
                                        if spins > 20_000 {
                                            std::thread::yield_now();
                                        } else {
                                            std::hint::spin_loop();
                                        }
                                    }
                                }
                                let i = if !step && random(8) == 0 { random(n) } else { (k * n / steps + random(window)) % n };
                                let b = ticket.fetch_add(1, Ordering::SeqCst);
                                let o = env.exec_shared(&ops[i]);
                                let e = ticket.fetch_add(1, Ordering::SeqCst);
                                let next = texts.len();
                                let h = *texts.entry((i, o.to_string())).or_insert(next);
                                seen.push((i, b, e, h));
                            }
                            let mut out = out.lock().unwrap();
                            for ((i, o), h) in texts {
                                writeln!(out, "{}", serde_json::json!({"th": t + 1, "i": i + 1, "h": h, "o": o})).unwrap();
                            }
                            for (i, b, e, h) in seen {
                                writeln!(out, "{}", serde_json::json!({"th": t + 1, "i": i + 1, "b": b, "e": e, "h": h})).unwrap();
                            }
                        })
                        .unwrap()
                })
                .collect();
            for w in workers {
                w.join().unwrap();
            }
            out.lock().unwrap().flush().unwrap();
        }
        other => panic!("unknown mode {other}"),
    }
}
