//! Executes scenarios (one JSON object per line) against tchannel_rs and records what happens.
//! usage: vh SCRIPTS TRACE [--threads N] [--base N] [--net N]
mod cli;
mod crowd;
mod e2e;
mod handlers;
mod life;
mod reg;
mod srv;
mod util;
mod wire;

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::net::{IpAddr, Ipv4Addr};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

thread_local! {
    static CURRENT: RefCell<Option<Arc<Log>>> = RefCell::new(None);
}

fn set_current(log: Option<Arc<Log>>) { CURRENT.with(|c| *c.borrow_mut() = log) }

/// Panics of the code under test are observations; of the harness itself they are errors.
fn panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if msg == "intended" { return; }
        let own = file.starts_with("src/");
        let ev = if own { json!({"e": "tool", "what": format!("panic {}:{} {}", file, line, msg)}) } else {
            json!({"e": "panic", "at": format!("{}:{}", file, line), "msg": msg.chars().take(200).collect::<String>()})
        };
        let logged = CURRENT.try_with(|c| match c.try_borrow() {
            Ok(l) => match &*l { Some(log) => { log.ev(ev.clone()); true } None => false },
            Err(_) => false,
        }).unwrap_or(false);
        if !logged { eprintln!("PANIC {}", ev); }
    }));
}

struct Slot { started: Option<Instant>, log: Option<Arc<Log>>, index: usize }

fn run_one(sc: &Value, index: usize, base: usize, net: usize, log: Arc<Log>) -> bool {
    #[cfg(tchannel_verif)]
    tchannel_rs::verif::reset();
    let n = base + index;
    let ip = IpAddr::V4(Ipv4Addr::new(127, (10 + net % 38 * 3 + n / 60000 % 3) as u8, (n / 250 % 240) as u8, (n % 250) as u8 + 1));
    let mt = u(sc, "mt");
    let rt = if mt > 0 {
        let l = log.clone();
        tokio::runtime::Builder::new_multi_thread().worker_threads(mt).enable_all()
            .on_thread_start(move || set_current(Some(l.clone()))).build().unwrap()
    } else {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    };
    set_current(Some(log.clone()));
    let mut head = json!({"e": "reset", "sc": index + 1});
    if let Some(Value::Object(def)) = sc.get("def") { for (k, v) in def { head[k] = v.clone() } }
    log.ev(head);
    let sc2 = sc.clone();
    let fam = s(sc, "fam").to_string();
    let l2 = log.clone();
    let ok = rt.block_on(async move {
        let run = tokio::spawn(async move {
            match fam.as_str() {
                "srv" => srv::run(sc2, l2, ip).await,
                "cli" => cli::run(sc2, l2, ip).await,
                "life" => life::run(sc2, l2, ip).await,
                "reg" => reg::run(sc2, l2, ip).await,
                "e2e" => e2e::run(sc2, l2, ip).await,
                _ => { l2.ev(json!({"e": "tool", "what": "unknown family"})); false }
            }
        });
        run.await.unwrap_or(false)
    });
    log.close();
    rt.shutdown_timeout(Duration::from_millis(if mt > 0 { 500 } else { 0 }));
    set_current(None);
    ok
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str, d: usize| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let threads = opt("--threads", 8);
    let base = opt("--base", 0);
    let net = opt("--net", 0);
    panic_hook();
    let scripts: Arc<Vec<Value>> = Arc::new(std::fs::read_to_string(&args[1]).expect("scripts").lines()
        .filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).expect("script")).collect());
    let results: Arc<Mutex<HashMap<usize, Vec<String>>>> = Arc::new(Mutex::new(HashMap::new()));
    let next = Arc::new(AtomicUsize::new(0));
    let slots: Arc<Vec<Mutex<Slot>>> = Arc::new((0..threads).map(|_| Mutex::new(Slot { started: None, log: None, index: 0 })).collect());
    let mut running = Vec::new();
    for t in 0..threads {
        let (scripts, results, next, slots) = (scripts.clone(), results.clone(), next.clone(), slots.clone());
        running.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= scripts.len() || STUCK.load(Ordering::SeqCst) >= MAX_STUCK { return; }
            let log = Log::new();
            { let mut s = slots[t].lock().unwrap(); s.started = Some(Instant::now()); s.log = Some(log.clone()); s.index = i; }
            let ok = run_one(&scripts[i], i, base, net, log.clone());
            if !ok { STUCK.fetch_add(1, Ordering::SeqCst); }
            { slots[t].lock().unwrap().started = None; }
            results.lock().unwrap().insert(i, log.take());
        }));
    }
    // ends scenarios in which the code under test spins without ever yielding
    let mut hung = false;
    loop {
        std::thread::sleep(Duration::from_millis(5));
        if running.iter().all(|r| r.is_finished()) { break; }
        for slot in slots.iter() {
            let s = slot.lock().unwrap();
            let limit = un(&scripts[s.index], "limit_s", 150);
            if let (Some(started), Some(log)) = (s.started, &s.log) {
                if started.elapsed() > Duration::from_secs(limit as u64) || log.flooded() {
                    let mut events = log.take();
                    events.push(json!({"e": "hang"}).to_string());
                    results.lock().unwrap().insert(s.index, events);
                    hung = true;
                }
            }
        }
        if hung { break; }
    }
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("trace"));
    let results = results.lock().unwrap();
    let mut executed = 0;
    for i in 0..scripts.len() {
        if let Some(events) = results.get(&i) {
            executed += 1;
            for e in events { writeln!(out, "{}", e).unwrap(); }
        }
    }
    out.flush().unwrap();
    println!("{}", json!({"scripts": scripts.len(), "executed": executed, "stuck": STUCK.load(Ordering::SeqCst), "hang": hung}));
    std::process::exit(0);
}
