//! Real clients and real servers, possibly with a relay between them.
use crate::handlers::*;
use crate::srv::config;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::{IpAddr, SocketAddr};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tchannel_rs::handler::{HandlerResult, RequestHandlerAsync};
use tchannel_rs::messages::{MessageChannel, RawMessage};
use tchannel_rs::{errors::HandlerError, TChannel};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::task::JoinHandle;

struct Link { tasks: Vec<JoinHandle<()>>, socks: Vec<Arc<socket2::Socket>> }

/// Forwards bytes between clients and a server.
struct Relay {
    links: Mutex<Vec<Link>>,
    /// bytes to be forwarded until all connections are broken; negative: unlimited
    left: AtomicI64,
    rst: Mutex<bool>,
    chop: usize,
}

impl Relay {
    fn cut(&self, rst: bool) {
        for link in self.links.lock().unwrap().drain(..) {
            for t in link.tasks { t.abort() }
            for s in link.socks {
                if rst { let _ = s.set_linger(Some(Duration::ZERO)); } else { let _ = s.shutdown(std::net::Shutdown::Both); }
            }
        }
    }
}

async fn pump(relay: Arc<Relay>, mut r: tokio::net::tcp::OwnedReadHalf, mut w: tokio::net::tcp::OwnedWriteHalf, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let max = match relay.chop { 0 | 1 => buf.len(), 2 => 4000, _ => buf.len() };
        let n = match r.read(&mut buf[..max]).await { Ok(n) if n > 0 => n, _ => break };
        let mut at = 0;
        while at < n {
            let len = match relay.chop {
                0 => n,
                1 => 1 + rng.below(30000) as usize,
                2 => 1 + rng.below(3000) as usize,
                3 => if at < 400 { 1 + rng.below(9) as usize } else { n },
                _ => if at < 60 { 1 } else { 1 + rng.below(20000) as usize },
            }.min(n - at);
            let left = relay.left.load(Ordering::SeqCst);
            let (len, last) = if left >= 0 && left <= len as i64 { (left as usize, true) } else { (len, false) };
            if left >= 0 { relay.left.fetch_sub(len as i64, Ordering::SeqCst); }
            if w.write_all(&buf[at..at + len]).await.is_err() { return; }
            if last {
                relay.left.store(-1, Ordering::SeqCst);
                let rst = *relay.rst.lock().unwrap();
                relay.cut(rst);
                return;
            }
            at += len;
            if rng.below(8) == 0 { tokio::task::yield_now().await }
        }
    }
    let _ = w.shutdown().await;
}

async fn relay(from: SocketAddr, to: SocketAddr, relay: Arc<Relay>, seed: u64) -> std::io::Result<JoinHandle<()>> {
    let socket = tokio::net::TcpSocket::new_v4()?;
    socket.set_reuseaddr(true)?;
    socket.bind(from)?;
    let listener: TcpListener = socket.listen(256)?;
    Ok(tokio::spawn(async move {
        let mut n = 0;
        while let Ok((a, _)) = listener.accept().await {
            let b = match TcpStream::connect(to).await { Ok(b) => b, Err(_) => continue };
            let _ = a.set_nodelay(true);
            let _ = b.set_nodelay(true);
            let socks = vec![crate::srv::raw_socket(&a), crate::srv::raw_socket(&b)];
            let (ar, aw) = a.into_split();
            let (br, bw) = b.into_split();
            n += 2;
            let tasks = vec![tokio::spawn(pump(relay.clone(), ar, bw, seed + n)), tokio::spawn(pump(relay.clone(), br, aw, seed + n + 1))];
            relay.links.lock().unwrap().push(Link { tasks, socks });
        }
    }))
}

struct Env { log: Arc<Log>, ctx: Arc<Ctx>, defs: Vec<Value>, ress: HashMap<u64, Vec<usize>>, svcs: Vec<String> }

async fn call(env: Arc<Env>, channel: Arc<TChannel>, k: usize, addr: SocketAddr, text: bool, burn: usize) {
    let def = &env.defs[k - 1];
    let sub = channel.subchannel(env.svcs[k - 1].clone()).await.expect("subchannel");
    let msg = Msg::of(def);
    macro_rules! send {
        ($conv:ident, $hash:ident) => {{
            let res = if text { busy(burn, MessageChannel::send(&*sub, msg.$conv(), addr.to_string())).await } else { busy(burn, MessageChannel::send(&*sub, msg.$conv(), addr)).await };
            match res {
                Ok(m) => ("ok", Some($hash(&m)), String::new()),
                Err(HandlerError::MessageError(m)) => ("msg", Some($hash(&m)), String::new()),
                Err(e) => ("err", None, e.to_string()),
            }
        }};
    }
    let (out, h, why) = if msg.json { send!(json, hash_json) } else { send!(raw, hash_raw) };
    let m = h.and_then(|h| env.ress.get(&h).cloned()).unwrap_or_default();
    env.log.ev(json!({"e": "ret", "k": k, "out": out, "m": m, "why": why.chars().take(120).collect::<String>()}));
    env.ctx.seen.add(format!("ret:{}", k));
}

/// Many calls at the same time, judged by counting.
#[derive(Debug, Default)]
struct Storm {
    /// executions by request
    seen: Mutex<HashMap<String, usize>>,
    overlap: AtomicUsize,
    calls: AtomicUsize,
    dropped: AtomicUsize,
    /// other content, other kind of outcome, error not caused by the handler
    content: AtomicUsize,
    kind: AtomicUsize,
    err: AtomicUsize,
    ended: AtomicUsize,
    why: Mutex<String>,
}

const STORM: [&str; 2] = ["a", "bb"];

#[derive(Debug)]
struct StormHandler { storm: Arc<Storm>, at: AtomicUsize }

struct Leave<'a>(&'a AtomicUsize);
impl Drop for Leave<'_> {
    fn drop(&mut self) { self.0.fetch_sub(1, Ordering::SeqCst); }
}

impl RequestHandlerAsync for StormHandler {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            if self.at.fetch_add(1, Ordering::SeqCst) > 0 { self.storm.overlap.fetch_add(1, Ordering::SeqCst); }
            let _at = Leave(&self.at);
            *self.storm.seen.lock().unwrap().entry(request.header().clone()).or_insert(0) += 1;
            let h = hash_raw(&request);
            if h % 3 == 0 { tokio::task::yield_now().await }
            let id = request.header().clone();
            match h % 16 {
                0 => Err(HandlerError::GeneralError(id)),
                1 | 2 => Err(HandlerError::MessageError(RawMessage::new(request.endpoint().clone(), id, request.body().clone()))),
                _ => Ok(RawMessage::new(request.endpoint().clone(), id, request.body().clone())),
            }
        })
    }
}

/// Rounds of calls: all start together when all have ended, possibly with new channels.
struct Rounds { start: tokio::sync::Barrier, fresh: bool, clients: Vec<Mutex<Arc<TChannel>>>, cfg: Value, own: SocketAddr }

async fn storm_calls(storm: Arc<Storm>, rounds: Arc<Rounds>, c: usize, addrs: Vec<SocketAddr>, name: String, n: usize, drop: u64, big: u64, seed: u64, together: bool) {
    let mut rng = Rng::new(seed);
    for i in 0..n {
        if together {
            if rounds.start.wait().await.is_leader() && rounds.fresh {
                for c in rounds.clients.iter() { *c.lock().unwrap() = Arc::new(TChannel::new(config(&rounds.cfg, rounds.own)).expect("channel")); }
            }
            if rounds.fresh { rounds.start.wait().await; }
            match rng.below(4) { 0 => yields(rng.below(4) as usize).await, 1 => (0..rng.below(2000)).for_each(|x| { std::hint::black_box(x); }), _ => () }
        }
        let id = format!("{}:{}", name, i);
        let len = if rng.below(100) < big { 60_000 + rng.below(140_000) as usize } else { rng.below(40) as usize };
        let msg = RawMessage::new(STORM[rng.below(2) as usize].to_string(), id.clone(), bytes::Bytes::from(blob(rng.next(), len)));
        let h = hash_raw(&msg);
        let addr = addrs[rng.below(addrs.len() as u64) as usize];
        let channel = rounds.clients[c].lock().unwrap().clone();
        let call = async {
            match channel.subchannel("storm".to_string()).await {
                Ok(sub) => MessageChannel::send(&*sub, msg, addr).await,
                Err(e) => Err(HandlerError::InternalError(e)),
            }
        };
        let res = if rng.below(100) < drop {
            // given up after some polls, or some time
            if rng.below(2) == 0 {
                let mut left = 1 + rng.below(12);
                let mut call = Box::pin(call);
                std::future::poll_fn(move |cx| {
                    if left == 0 { return std::task::Poll::Ready(None); }
                    left -= 1;
                    call.as_mut().poll(cx).map(Some)
                }).await
            } else {
                tokio::time::timeout(Duration::from_micros(rng.below(1500)), call).await.ok()
            }
        } else {
            Some(call.await)
        };
        let same = |m: &RawMessage| if hash_raw(m) != h { storm.content.fetch_add(1, Ordering::SeqCst); };
        let kind = match &res {
            None => { storm.dropped.fetch_add(1, Ordering::SeqCst); None }
            Some(Ok(m)) => { same(m); Some(3) }
            Some(Err(HandlerError::MessageError(m))) => { same(m); Some(1) }
            Some(Err(_)) => Some(0),
        };
        let want = match h % 16 { 0 => 0, 1 | 2 => 1, _ => 3 };
        if let Some(kind) = kind {
            let done = storm.seen.lock().unwrap().contains_key(&id);
            if kind == 0 && (want != 0 || !done) {
                storm.err.fetch_add(1, Ordering::SeqCst);
                *storm.why.lock().unwrap() = format!("{}: {:?}", id, res.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))).chars().take(160).collect();
            } else if kind != want {
                storm.kind.fetch_add(1, Ordering::SeqCst);
            } else if !done {
                storm.content.fetch_add(1, Ordering::SeqCst);
            }
        }
        storm.calls.fetch_add(1, Ordering::SeqCst);
    }
    storm.ended.fetch_add(1, Ordering::SeqCst);
}

pub async fn run(sc: Value, log: Arc<Log>, ip: IpAddr) -> bool {
    let defs = arr(&sc, "calls").to_vec();
    let (ns, nc) = (u(&sc, "ns"), u(&sc, "nc"));
    let mut ress: HashMap<u64, Vec<usize>> = HashMap::new();
    for (i, d) in defs.iter().enumerate() { ress.entry(Msg::of(&d["out"]).hash()).or_default().push(i + 1) }
    let ctx = Arc::new(Ctx::new(log.clone(), &defs));
    let svcs = defs.iter().map(|d| string_of(d.get("svc"))).collect();
    let server_addr = |i: usize| SocketAddr::new(ip, PORT + i as u16);
    let mut servers = Vec::new();
    for i in 1..=ns { servers.push(Arc::new(TChannel::new(config(&sc["cfg"], server_addr(i))).expect("channel"))) }
    for (i, h) in arr(&sc, "handlers").iter().enumerate() {
        let sub = servers[u(h, "s") - 1].subchannel(string_of(h.get("svc"))).await.expect("subchannel");
        if let Err(e) = register(&sub, i + 1, h, &ctx).await {
            log.ev(json!({"e": "setup", "what": format!("register: {}", e)}));
            return false;
        }
    }
    let storm = Arc::new(Storm::default());
    if arr(&sc, "steps").iter().any(|x| s(x, "op") == "storm") {
        for server in servers.iter() {
            let sub = server.subchannel("storm".to_string()).await.expect("subchannel");
            for ep in STORM {
                if let Err(e) = sub.register_async(ep.to_string(), StormHandler { storm: storm.clone(), at: AtomicUsize::new(0) }).await {
                    log.ev(json!({"e": "setup", "what": format!("register: {}", e)}));
                    return false;
                }
            }
        }
    }
    for s in servers.iter() {
        if let Err(e) = s.start_server() {
            log.ev(json!({"e": "setup", "what": format!("start: {}", e)}));
            return false;
        }
    }
    // the relay and clients do not wait for servers
    for i in 1..=ns { if crate::srv::connect(server_addr(i), PATIENCE).await.is_none() { log.ev(json!({"e": "setup", "what": "no server"})); return false; } }
    let clients: Vec<Arc<TChannel>> = (1..=nc).map(|c| if b(&sc, "own") { servers[(c - 1) % ns].clone() } else {
        Arc::new(TChannel::new(config(&sc["cfg"], SocketAddr::new(ip, PORT + 50))).expect("channel"))
    }).collect();
    let mut relays = Vec::new();
    let mut accepting = Vec::new();
    if b(&sc, "proxy") {
        for i in 1..=ns {
            let r = Arc::new(Relay { links: Mutex::new(vec![]), left: AtomicI64::new(-1), rst: Mutex::new(false), chop: u(&sc, "chop") });
            match relay(SocketAddr::new(ip, PORT + 100 + i as u16), server_addr(i), r.clone(), u(&sc, "seed") as u64 + 1000 * i as u64).await {
                Ok(t) => accepting.push(t),
                Err(e) => { log.ev(json!({"e": "tool", "what": format!("relay: {}", e)})); return false; }
            }
            relays.push(r);
        }
    }
    let env = Arc::new(Env { log: log.clone(), ctx: ctx.clone(), defs, ress, svcs });
    let mut tasks: HashMap<usize, JoinHandle<()>> = HashMap::new();
    let mut live: Vec<usize> = vec![];
    let mut hit: Vec<usize> = vec![];
    let mut ok = true;
    for step in arr(&sc, "steps") {
        let (k, sv) = (u(step, "k"), u(step, "s"));
        match s(step, "op") {
            "call" => {
                let def = &env.defs[k - 1];
                let addr = SocketAddr::new(ip, PORT + u(def, "s") as u16 + if relays.is_empty() { 0 } else { 100 });
                log.ev(json!({"e": "call", "k": k}));
                live.push(k);
                tasks.insert(k, tokio::spawn(call(env.clone(), clients[u(def, "c") - 1].clone(), k, addr, b(step, "text"), u(step, "burn"))));
            }
            "open" => { log.ev(json!({"e": "open", "k": k})); ctx.open(k) }
            "drop" => {
                if ctx.seen.get(&format!("ret:{}", k)) > 0 { continue; }
                if let Some(task) = tasks.remove(&k) {
                    task.abort();
                    match task.await {
                        Err(e) if e.is_cancelled() => { log.ev(json!({"e": "drop", "k": k})); live.retain(|x| *x != k) }
                        _ => (),
                    }
                }
            }
            "cut" => {
                let r = &relays[sv - 1];
                let hits = log.with(|| (live.iter().copied().filter(|k| u(&env.defs[k - 1], "s") == sv && ctx.seen.get(&format!("hstart:{}", k)) > 0 && ctx.seen.get(&format!("ret:{}", k)) == 0).collect::<Vec<_>>(),
                    json!({"e": "cut", "s": sv, "now": true})));
                hit.extend(hits);
                r.cut(s(step, "how") == "rst");
            }
            "cutat" => {
                log.ev(json!({"e": "cut", "s": sv, "now": false}));
                *relays[sv - 1].rst.lock().unwrap() = s(step, "how") == "rst";
                relays[sv - 1].left.store(u(step, "n") as i64, Ordering::SeqCst);
            }
            "yield" => yields(un(step, "n", 5)).await,
            "sleep" => tokio::time::sleep(Duration::from_millis(u(step, "ms") as u64)).await,
            "sync" => {
                let mut due: Vec<usize> = arr(step, "due").iter().filter_map(|x| x.as_u64().map(|x| x as usize)).collect();
                due.extend(hit.iter());
                due.retain(|k| live.contains(k));
                let done = wait_until(|| due.iter().all(|k| ctx.seen.get(&format!("ret:{}", k)) > 0)).await;
                log.ev(json!({"e": "sync", "done": done, "due": due}));
                if !done { ok = false; break }
            }
            "storm" => {
                let addrs: Vec<SocketAddr> = (1..=ns).map(|i| SocketAddr::new(ip, PORT + i as u16 + if relays.is_empty() { 0 } else { 100 })).collect();
                let (n, drop, big) = (u(step, "calls"), u(step, "drop") as u64, u(step, "big") as u64);
                let mut stormy = Vec::new();
                let rounds = Arc::new(Rounds {
                    start: tokio::sync::Barrier::new(clients.len() * u(step, "tasks")),
                    fresh: b(step, "fresh") && !b(&sc, "own"),
                    clients: clients.iter().map(|c| Mutex::new(c.clone())).collect(),
                    cfg: sc["cfg"].clone(),
                    own: SocketAddr::new(ip, PORT + 50),
                });
                for c in 0..clients.len() {
                    for t in 0..u(step, "tasks") {
                        let seed = u(&sc, "seed") as u64 * 1000 + (c * 100 + t) as u64;
                        stormy.push(tokio::spawn(storm_calls(storm.clone(), rounds.clone(), c, addrs.clone(), format!("{}.{}", c, t), n, drop, big, seed, b(step, "rounds"))));
                    }
                }
                // stuck: no call has ended for longer than a user would wait
                let (mut last, mut since) = (0, Instant::now());
                let mut spins = 0;
                while storm.ended.load(Ordering::SeqCst) < stormy.len() && since.elapsed() < PATIENCE {
                    let now = storm.calls.load(Ordering::SeqCst);
                    if now != last { last = now; since = Instant::now(); }
                    spins += 1;
                    if spins % 50 == 0 { tokio::time::sleep(Duration::from_millis(1)).await } else { tokio::task::yield_now().await }
                }
                let get = |x: &AtomicUsize| x.load(Ordering::SeqCst);
                let twice = storm.seen.lock().unwrap().values().filter(|n| **n > 1).count();
                let stuck = stormy.len() - get(&storm.ended);
                log.ev(json!({"e": "storm", "calls": get(&storm.calls), "dropped": get(&storm.dropped), "content": get(&storm.content), "kind": get(&storm.kind),
                    "err": get(&storm.err), "stuck": stuck, "twice": twice, "overlap": get(&storm.overlap), "why": storm.why.lock().unwrap().clone()}));
                for t in stormy { t.abort() }
                if stuck > 0 { ok = false; break }
            }
            "probe" => {
                #[cfg(tchannel_verif)]
                {
                    let outstanding = || live.iter().filter(|k| ctx.seen.get(&format!("ret:{}", k)) == 0).count();
                    let client = || tchannel_rs::verif::connections().into_iter().filter(|c| c.0).map(|c| c.1.unwrap_or(1 << 20)).sum::<usize>();
                    wait_until_for(Duration::from_secs(5), &mut || client() <= outstanding()).await;
                    log.ev(json!({"e": "probe", "client": client()}));
                }
            }
            other => { log.ev(json!({"e": "tool", "what": format!("unknown step {}", other)})); ok = false; break }
        }
    }
    if ok { yields(30).await; tokio::time::sleep(Duration::from_millis(2)).await; }
    log.ev(json!({"e": "fin", "ok": ok}));
    log.close();
    for t in tasks.values() { t.abort() }
    for t in accepting { t.abort() }
    for r in relays { r.cut(false) }
    ok
}
