//! Life cycles of servers: channels started, stopped and dropped while peers connect.
use crate::srv::config;
use crate::util::*;
use crate::wire::{self, CallSpec, Frame, Read};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::{IpAddr, SocketAddr};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use tchannel_rs::handler::{HandlerResult, RequestHandler};
use tchannel_rs::messages::{MessageChannel, RawMessage};
use tchannel_rs::TChannel;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::task::JoinHandle;

const EMFILE: i32 = 24;

#[derive(Debug)]
struct Tell(usize);
impl RequestHandler for Tell {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> HandlerResult<RawMessage> {
        Ok(RawMessage::new(request.endpoint().to_string(), self.0.to_string(), request.body().clone()))
    }
}
#[derive(Debug)]
struct Boom;
impl RequestHandler for Boom {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, _: RawMessage) -> HandlerResult<RawMessage> { panic!("intended") }
}

/// One request over a connection: "served" and by which channel, "error" (an answer of another kind), "closed" or "stuck".
async fn request(stream: &mut TcpStream, id: u32, ep: &str, patience: Duration) -> (&'static str, usize) {
    let body = id.to_be_bytes();
    let chunks: Vec<&[u8]> = vec![ep.as_bytes(), b"", &body];
    let spec = CallSpec { req: true, first: true, more: false, code: 0, service: "life", scheme: "raw", extra_headers: 0, chunks: &chunks, d: "", seed: id as u64 };
    let exchange = async {
        if stream.write_all(&Frame::new(wire::CALL_REQ, id, wire::call_payload(&spec)).encode()).await.is_err() { return ("closed", 0); }
        match wire::read_frame(stream).await {
            Read::Frame(f) if f.ty == wire::CALL_RES && f.id == id => match wire::parse_call_res(&f.payload) {
                Ok(c) if c.chunks.len() == 3 && c.chunks[2] == body => ("served", String::from_utf8_lossy(&c.chunks[1]).parse().unwrap_or(0)),
                _ => ("error", 0),
            },
            Read::Frame(_) => ("error", 0),
            _ => ("closed", 0),
        }
    };
    tokio::time::timeout(patience, exchange).await.unwrap_or(("stuck", 0))
}

/// Connects; on success also exchanges handshakes and sends a request.
async fn attempt(addr: SocketAddr, id: u32, ep: &str, patience: Duration) -> (&'static str, usize, Option<TcpStream>) {
    let mut stream = loop {
        match TcpStream::connect(addr).await {
            Ok(s) => break s,
            Err(e) if e.raw_os_error() == Some(EMFILE) => tokio::time::sleep(Duration::from_millis(1)).await,
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => return ("refused", 0, None),
            Err(_) => return ("closed", 0, None),
        }
    };
    let _ = stream.set_nodelay(true);
    let greet = async {
        if stream.write_all(&Frame::new(wire::INIT_REQ, 1, wire::init_payload::<&str>(2, &[])).encode()).await.is_err() { return false; }
        matches!(wire::read_frame(&mut stream).await, Read::Frame(f) if f.ty == wire::INIT_RES)
    };
    match tokio::time::timeout(patience, greet).await {
        Err(_) => return ("stuck", 0, None),
        Ok(false) => return ("closed", 0, None),
        Ok(true) => (),
    }
    let (res, h) = request(&mut stream, id, ep, patience).await;
    (res, h, Some(stream))
}

/// Connects while the process has no file descriptors left.
async fn exhaust(addr: SocketAddr, n: usize) {
    let mut socks = Vec::new();
    for _ in 0..n { if let Ok(s) = tokio::net::TcpSocket::new_v4() { socks.push(s) } }
    let mut limit = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    let mut fill = Vec::new();
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut limit);
        let top = libc::dup(2);
        fill.push(top);
        let low = libc::rlimit { rlim_cur: top as u64 + 12, rlim_max: limit.rlim_max };
        libc::setrlimit(libc::RLIMIT_NOFILE, &low);
        loop {
            let fd = libc::dup(2);
            if fd < 0 { break; }
            fill.push(fd);
        }
    }
    let mut streams = Vec::new();
    for s in socks { if let Ok(Ok(s)) = tokio::time::timeout(Duration::from_secs(1), s.connect(addr)).await { streams.push(s) } }
    tokio::time::sleep(Duration::from_millis(10)).await;
    unsafe {
        for fd in fill { libc::close(fd); }
        libc::setrlimit(libc::RLIMIT_NOFILE, &limit);
    }
    drop(streams);
}

/// Connections that come to nothing.
/// Gives back the connections which are left silent.
async fn flood(addr: SocketAddr, n: usize, seed: u64) -> Vec<TcpStream> {
    let mut rng = Rng::new(seed);
    let mut open = Vec::new();
    for i in 0..n {
        if let Ok(mut s) = TcpStream::connect(addr).await {
            match rng.below(6) {
                0 => (),
                1 => { let _ = socket2::SockRef::from(&s).set_linger(Some(Duration::ZERO)); }
                2 => { let _ = s.write_all(&rng.bytes(20)).await; }
                3 => { let _ = s.write_all(&Frame::new(wire::INIT_REQ, i as u32, wire::init_payload::<&str>(2, &[])).encode()).await; let _ = socket2::SockRef::from(&s).set_linger(Some(Duration::ZERO)); }
                4 => { let _ = s.write_all(&Frame::new(wire::INIT_REQ, i as u32, wire::init_payload::<&str>(2, &[])).encode()).await; let mut b = [0; 1]; let _ = tokio::time::timeout(Duration::from_millis(20), s.read(&mut b)).await; }
                _ => { open.push(s); continue }
            }
        }
    }
    open
}

struct Channels { of: HashMap<usize, (TChannel, SocketAddr)> }

pub async fn run(sc: Value, log: Arc<Log>, ip: IpAddr) -> bool {
    let addr_of = |a: usize| SocketAddr::new(ip, PORT + a as u16);
    let seen = Arc::new(crate::handlers::Seen::new());
    let client = Arc::new(TChannel::new(config(&sc["cfg"], SocketAddr::new(ip, PORT + 50))).expect("channel"));
    let mut channels = Channels { of: HashMap::new() };
    let mut kept: HashMap<usize, TcpStream> = HashMap::new();
    let mut tasks: Vec<(usize, JoinHandle<()>)> = Vec::new();
    let mut rcalls: Vec<(usize, usize, JoinHandle<()>)> = Vec::new();
    let mut silent = Vec::new();
    let mut subs = Vec::new();
    let mut ok = true;
    let mut id = 1;
    for step in arr(&sc, "steps") {
        let (c, a, i, k) = (u(step, "ch"), u(step, "a"), u(step, "i"), u(step, "k"));
        id += 1;
        match s(step, "op") {
            "new" => {
                let channel = TChannel::new(config(&sc["cfg"], addr_of(a))).expect("channel");
                let sub = channel.subchannel("life").await.expect("subchannel");
                let done = sub.register("ep", Tell(c)).await.is_ok() && sub.register("boom", Boom).await.is_ok();
                if !done { log.ev(json!({"e": "setup", "what": "register"})); return false; }
                log.ev(json!({"e": "new", "ch": c, "a": a}));
                channels.of.insert(c, (channel, addr_of(a)));
                // outlives the channel
                if c % 2 == 1 { subs.push(sub); }
            }
            "start" => {
                let ch = &channels.of[&c].0;
                log.with(|| ((), json!({"e": "start", "ch": c, "ok": ch.start_server().is_ok()})));
            }
            "stop" => {
                let ch = &channels.of[&c].0;
                log.with(|| ((), json!({"e": "stop", "ch": c, "ok": ch.shutdown_server().is_ok()})));
            }
            "drop" => {
                if let Some((ch, _)) = channels.of.remove(&c) {
                    log.with(|| { drop(ch); ((), json!({"e": "gone", "ch": c})) });
                }
            }
            // A start while the address is taken by somebody else, who does not listen.
            "squat" => {
                let socket = tokio::net::TcpSocket::new_v4().ok().filter(|s| s.bind(addr_of(a)).is_ok());
                if socket.is_some() {
                    let ch = &channels.of[&c].0;
                    log.with(|| ((), json!({"e": "start", "ch": c, "ok": ch.start_server().is_ok()})));
                    tokio::time::sleep(Duration::from_millis(20)).await;
                    log.with(|| ((), json!({"e": "stop", "ch": c, "ok": ch.shutdown_server().is_ok()})));
                }
            }
            "race" => {
                let n = un(step, "n", 3);
                let ch = &channels.of[&c].0;
                let start = s(step, "kind") == "start";
                let handle = tokio::runtime::Handle::current();
                log.with(|| {
                    let barrier = Barrier::new(n);
                    let oks = std::thread::scope(|scope| {
                        let threads: Vec<_> = (0..n).map(|_| scope.spawn(|| {
                            let _in = handle.enter();
                            barrier.wait();
                            if start { ch.start_server().is_ok() } else { ch.shutdown_server().is_ok() }
                        })).collect();
                        threads.into_iter().map(|t| t.join().unwrap_or(false)).filter(|x| *x).count()
                    });
                    ((), json!({"e": "racing", "ch": c, "kind": s(step, "kind"), "n": n, "oks": oks}))
                });
            }
            "att" => {
                let kind = s(step, "kind").to_string();
                log.ev(json!({"e": "att", "i": i, "a": a, "kind": kind}));
                let addr = addr_of(a);
                let l2 = log.clone();
                let run = async move {
                    let (res, h, stream) = attempt(addr, id, if kind == "boom" { "boom" } else { "ep" }, PATIENCE).await;
                    l2.ev(json!({"e": "end", "i": i, "res": res, "h": h}));
                    if kind == "keep" { stream } else { None }
                };
                if b(step, "async") { tasks.push((a, tokio::spawn(async move { run.await; }))) } else if let Some(s) = run.await { kept.insert(i, s); }
            }
            "held" => {
                if let Some(stream) = kept.get_mut(&i) {
                    let (res, h) = request(stream, id, "ep", PATIENCE).await;
                    log.ev(json!({"e": "hend", "i": i, "res": res, "h": h}));
                    if res != "served" { kept.remove(&i); }
                }
            }
            "flood" => { silent.extend(flood(addr_of(a), un(step, "n", 10), id as u64 * 77).await); if silent.len() > 40 { silent.drain(..20); } }
            "exhaust" => exhaust(addr_of(a), un(step, "n", 2)).await,
            "rcall" => {
                log.ev(json!({"e": "rcall", "k": k, "a": a}));
                let (client, l2, addr, seen) = (client.clone(), log.clone(), addr_of(a), seen.clone());
                rcalls.push((a, k, tokio::spawn(async move {
                    let sub = client.subchannel("life").await.expect("subchannel");
                    let res = MessageChannel::send(&*sub, RawMessage::new("ep".into(), String::new(), bytes::Bytes::from(k.to_string())), addr).await;
                    let ok = matches!(&res, Ok(m) if m.body().as_ref() == k.to_string().as_bytes());
                    let why = match &res { Ok(_) => String::new(), Err(e) => format!("{:?}", e).chars().take(160).collect::<String>() };
                    l2.ev(json!({"e": "rret", "k": k, "ok": ok, "why": why}));
                    seen.add(k.to_string());
                })));
            }
            "settle" => {
                let up = s(step, "want") == "up";
                let start = Instant::now();
                let mut done = false;
                let mut h = 0;
                while !done && start.elapsed() < PATIENCE {
                    let (res, by, _) = attempt(addr_of(a), id, "ep", PATIENCE).await;
                    h = by;
                    done = res == if up { "served" } else { "refused" };
                    if !done { tokio::time::sleep(Duration::from_millis(1)).await; }
                }
                log.ev(json!({"e": "settle", "a": a, "want": s(step, "want"), "done": done, "h": h}));
                if !done { ok = false; break }
                // attempts and calls are due
                for (a2, t) in tasks.iter_mut() { if *a2 == a { let _ = tokio::time::timeout(PATIENCE, &mut *t).await; } }
                tasks.retain(|x| x.0 != a);
                if up {
                    let all = wait_until(|| rcalls.iter().filter(|x| x.0 == a).all(|x| seen.get(&x.1.to_string()) > 0)).await;
                    log.ev(json!({"e": "rsync", "a": a, "all": all}));
                    if !all { ok = false; break }
                    rcalls.retain(|x| x.0 != a);
                }
            }
            "yield" => yields(un(step, "n", 5)).await,
            "sleep" => tokio::time::sleep(Duration::from_millis(u(step, "ms") as u64)).await,
            other => { log.ev(json!({"e": "tool", "what": format!("unknown step {}", other)})); ok = false; break }
        }
    }
    if ok { yields(30).await; tokio::time::sleep(Duration::from_millis(2)).await; }
    log.ev(json!({"e": "fin", "ok": ok}));
    log.close();
    for (_, t) in tasks { t.abort() }
    for (_, _, t) in rcalls { t.abort() }
    ok
}
