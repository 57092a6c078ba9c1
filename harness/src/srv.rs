//! Raw peers against a real server.
use crate::crowd;
use crate::handlers::*;
use crate::util::*;
use crate::wire::{self, Frame, Read};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::{IpAddr, SocketAddr};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::{ConfigBuilder, TChannel};
use tokio::io::AsyncWriteExt;
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::TcpStream;
use tokio::sync::mpsc;

pub fn config(cfg: &Value, addr: SocketAddr) -> tchannel_rs::Config {
    ConfigBuilder::default()
        .max_connections(un(cfg, "max", 1) as u32)
        .lifetime(match u(cfg, "lifetime_ms") { 0 => None, n => Some(Duration::from_millis(n as u64)) })
        .test_connection(b(cfg, "test"))
        .frame_buffer_size(un(cfg, "buf", 100))
        .server_address(addr)
        .server_tasks(un(cfg, "tasks", 4))
        .build()
        .expect("config")
}

/// Definitions of a scenario that the encoder of frames needs.
pub struct Defs {
    pub reqs: Vec<Value>,
    pub msgs: Vec<Msg>,
    /// responses of handlers by content
    pub outs: HashMap<u64, Vec<usize>>,
}

impl Defs {
    pub fn new(sc: &Value) -> Defs {
        let reqs = arr(sc, "reqs").to_vec();
        let msgs = reqs.iter().map(Msg::of).collect();
        let mut outs: HashMap<u64, Vec<usize>> = HashMap::new();
        for (i, r) in reqs.iter().enumerate() {
            outs.entry(Out::of(&r["out"]).msg.hash()).or_default().push(i + 1);
        }
        Defs { reqs, msgs, outs }
    }

    /// Bytes of a frame as described by the scenario.
    pub fn encode(&self, f: &Value) -> Vec<u8> {
        let t = s(f, "t");
        let d = s(f, "d");
        let seed = u(f, "seed") as u64;
        let id = id_of(f, "id");
        let frame = match t {
            "call" | "cont" => {
                let r = u(f, "r");
                let (def, msg) = (&self.reqs[r - 1], &self.msgs[r - 1]);
                let mut args = msg.args.clone();
                match (u(def, "inv"), b(def, "json")) {
                    (0, _) => (),
                    (a, _) if args[a - 1].is_empty() => (),
                    (a, true) => { let n = args[a - 1].len() - 1; args[a - 1][if u(def, "seed") % 2 == 0 { 0 } else { n }] = b'?' }
                    (a, false) => args[a - 1][0] = 0xff,
                }
                let chunks: Vec<&[u8]> = arr(f, "ch")
                    .iter()
                    .map(|c| {
                        let (a, off, len) = (c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize, c[2].as_u64().unwrap() as usize);
                        &args[a - 1][off..off + len]
                    })
                    .collect();
                let service = string_of(def.get("svc"));
                let scheme = match s(def, "as") { "" => if b(def, "json") { "json" } else { "raw" }, x => x };
                let spec = wire::CallSpec {
                    req: true, first: t == "call", more: b(f, "more"), code: 0, service: &service, scheme,
                    extra_headers: u(f, "hdr"), chunks: &chunks, d, seed,
                };
                Frame::new(if t == "call" { wire::CALL_REQ } else { wire::CALL_REQ_CONT }, id, wire::call_payload(&spec))
            }
            "init" => {
                let mut p = wire::init_payload(u(f, "v") as u16, &if d.is_empty() { wire::init_headers(seed) } else { vec![("host_port".into(), "0.0.0.0:0".into())] });
                match d {
                    "trunc" => p.truncate(1),
                    "half" => p.truncate(3),
                    "over" => p[3] = 9,
                    _ => (),
                }
                Frame::new(wire::INIT_REQ, id, p)
            }
            "ping" => Frame::new(wire::PING_REQ, id, vec![]),
            "bytes" => return hex(s(f, "hex")),
            "random" => return blob(seed, u(f, "len")),
            "mut" => {
                let mut bytes: Vec<u8> = arr(f, "of").iter().flat_map(|x| self.encode(x)).collect();
                mutate(&mut bytes, seed, un(f, "k", 1));
                return bytes;
            }
            _ => {
                // any other type, payload given or random
                let ty = u(f, "ty") as u8;
                let p = match f.get("hex") { Some(_) => hex(s(f, "hex")), None => blob(seed, u(f, "len")) };
                Frame::new(ty, id, p)
            }
        };
        frame.encode()
    }
}

pub fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn mutate(bytes: &mut Vec<u8>, seed: u64, k: usize) {
    let mut rng = Rng::new(seed);
    for _ in 0..k {
        if bytes.is_empty() { return; }
        // mostly within the first bytes, where the fields are
        let n = bytes.len() as u64;
        let i = if rng.below(3) == 0 { rng.below(n) } else { rng.below(n.min(140)) } as usize;
        match rng.below(7) {
            0 => bytes[i] = rng.next() as u8,
            1 => bytes[i] ^= 1 << rng.below(8),
            2 => bytes[i] = [0, 0xff, 0x7f, 0x80, 1][rng.below(5) as usize],
            3 => { bytes.remove(i); }
            4 => bytes.insert(i, rng.next() as u8),
            5 => { let j = (i + rng.below(40) as usize).min(bytes.len()); bytes.drain(i..j); }
            _ => { let j = (i + rng.below(40) as usize).min(bytes.len()); let x = bytes[i..j].to_vec(); for (o, y) in x.into_iter().enumerate() { bytes.insert(i + o, y) } }
        }
    }
}

pub enum Write {
    /// events logged before, bytes, positions of cuts
    Bytes(Vec<Value>, Vec<u8>, Vec<usize>),
    Eof,
}

struct Peer {
    tx: mpsc::UnboundedSender<Write>,
    queued: usize,
    paused: Arc<AtomicBool>,
    reader: tokio::task::JoinHandle<()>,
    writer: tokio::task::JoinHandle<()>,
    sock: Arc<socket2::Socket>,
}

pub async fn writer(mut w: OwnedWriteHalf, mut rx: mpsc::UnboundedReceiver<Write>, log: Arc<Log>, end: Value, fail: Value, key: String, ctx: Arc<Ctx>) -> OwnedWriteHalf {
    let mut failed = false;
    while let Some(op) = rx.recv().await {
        ctx.seen.add(format!("op:{}", key));
        match op {
            Write::Bytes(events, bytes, cuts) => {
                if failed { continue; }
                for e in events { log.ev(e) }
                let mut from = 0;
                for to in cuts.into_iter().chain([bytes.len()]) {
                    if to <= from || to > bytes.len() { continue; }
                    if w.write_all(&bytes[from..to]).await.is_err() {
                        failed = true;
                        log.ev(fail.clone());
                        break;
                    }
                    from = to;
                    yields(3 + from % 5).await;
                }
                ctx.seen.add(format!("wrote:{}", key));
            }
            Write::Eof => {
                log.ev(end.clone());
                let _ = w.shutdown().await;
                ctx.seen.add(format!("eof:{}", key));
            }
        }
    }
    w
}

async fn reader(p: usize, mut r: OwnedReadHalf, paused: Arc<AtomicBool>, ctx: Arc<Ctx>, defs: Arc<Defs>) {
    let log = ctx.log.clone();
    let mut partial: HashMap<u32, (wire::Call, Vec<Vec<u8>>)> = HashMap::new();
    loop {
        while paused.load(Ordering::Acquire) { tokio::time::sleep(Duration::from_millis(1)).await }
        match wire::read_frame(&mut r).await {
            Read::Eof => {
                log.ev(json!({"e": "closed", "p": p, "how": "eof"}));
                ctx.seen.add(format!("closed:{}", p));
                return;
            }
            Read::Broken(how) => {
                let how = if how.starts_with("Connection") || how.starts_with("end inside") { how } else { format!("garbage {}", how) };
                log.ev(json!({"e": "closed", "p": p, "how": if how.starts_with("garbage") { "garbage" } else { "broken" }, "why": how}));
                ctx.seen.add(format!("closed:{}", p));
                return;
            }
            Read::Frame(f) => {
                let (mut ev, keys) = describe_response(&f, &mut partial, &defs.outs);
                ev["e"] = json!("rx");
                ev["p"] = json!(p);
                log.ev(ev);
                for k in keys {
                    match k {
                        "ans" | "err" => ctx.seen.add(format!("{}:{}:{}", k, p, f.id)),
                        "pong" => ctx.seen.add(format!("pongs:{}", p)),
                        _ => ctx.seen.add(format!("{}:{}", k, p)),
                    }
                }
            }
        }
    }
}

/// Event for a frame written by a server, and what has been seen with it.
pub fn describe_response(f: &Frame, partial: &mut HashMap<u32, (wire::Call, Vec<Vec<u8>>)>, outs: &HashMap<u64, Vec<usize>>) -> (Value, Vec<&'static str>) {
    let t = wire::type_name(f.ty);
    let mut ev = json!({"t": t, "id": f.id.to_string(), "len": f.len(), "bad": "", "more": false, "ch": [], "code": -1, "as": "", "m": [], "last": false, "args": []});
    let mut keys = Vec::new();
    match f.ty {
        wire::INIT_RES => match wire::parse_init(&f.payload) {
            Ok(v) => { ev["v"] = json!(v); keys.push("initres") }
            Err(e) => ev["bad"] = json!(e),
        },
        wire::CALL_RES | wire::CALL_RES_CONT => {
            let first = f.ty == wire::CALL_RES;
            match if first { wire::parse_call_res(&f.payload) } else { wire::parse_cont(&f.payload) } {
                Err(e) => ev["bad"] = json!(e),
                Ok(c) => {
                    ev["more"] = json!(c.more);
                    ev["ch"] = json!(c.chunks.iter().map(|x| x.len()).collect::<Vec<_>>());
                    if first { ev["code"] = json!(c.code); ev["as"] = json!(c.header("as")); }
                    let more = c.more;
                    if first {
                        let chunks = c.chunks.clone();
                        partial.insert(f.id, (c, chunks));
                    } else if let Some((_, args)) = partial.get_mut(&f.id) {
                        join(args, c.chunks);
                    }
                    if !more {
                        ev["last"] = json!(true);
                        if let Some((c, args)) = partial.remove(&f.id) {
                            ev["args"] = json!(args.iter().map(|x| x.len()).collect::<Vec<_>>());
                            if args.len() == 3 {
                                let h = hash_args(c.header("as") == "json", &args[0], &args[1], &args[2]);
                                ev["m"] = json!(outs.get(&h).cloned().unwrap_or_default());
                            }
                        }
                        keys.push("ans");
                    }
                }
            }
        }
        wire::ERROR => match wire::parse_error(&f.payload) {
            Ok((code, why)) => {
                ev["code"] = json!(code);
                ev["why"] = json!(why.chars().take(80).collect::<String>()); 
                keys.push("ans");
                keys.push("err");
            }
            Err(e) => ev["bad"] = json!(e),
        },
        wire::PING_RES => {
            if !f.payload.is_empty() { ev["bad"] = json!("payload") }
            keys.push("pong")
        }
        _ => (),
    }
    (ev, keys)
}

/// Reading rule of the protocol.
pub fn join(args: &mut Vec<Vec<u8>>, chunks: Vec<Vec<u8>>) {
    for (i, c) in chunks.into_iter().enumerate() {
        if i == 0 && !args.is_empty() { args.last_mut().unwrap().extend_from_slice(&c) } else { args.push(c) }
    }
}

/// Opens a connection once the server listens.
pub async fn connect(addr: SocketAddr, patience: Duration) -> Option<TcpStream> {
    let start = std::time::Instant::now();
    loop {
        if let Ok(s) = TcpStream::connect(addr).await { return Some(s); }
        if start.elapsed() > patience { return None; }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
}

pub fn raw_socket(stream: &TcpStream) -> Arc<socket2::Socket> {
    Arc::new(socket2::SockRef::from(stream).try_clone().expect("socket clone"))
}

pub async fn run(sc: Value, log: Arc<Log>, ip: IpAddr) -> bool {
    let addr = SocketAddr::new(ip, PORT);
    let defs = Arc::new(Defs::new(&sc));
    let ctx = Arc::new(Ctx::new(log.clone(), arr(&sc, "reqs")));
    let channel = TChannel::new(config(&sc["cfg"], addr)).expect("channel");
    for svc in arr(&sc, "services") {
        let _ = channel.subchannel(string_of(Some(svc))).await;
    }
    for (i, h) in arr(&sc, "handlers").iter().enumerate() {
        let sub = channel.subchannel(string_of(h.get("svc"))).await.expect("subchannel");
        if let Err(e) = register(&sub, i + 1, h, &ctx).await {
            log.ev(json!({"e": "setup", "what": format!("register: {}", e)}));
            return false;
        }
    }
    if arr(&sc, "steps").iter().any(|x| s(x, "op") == "crowd") {
        let sub = channel.subchannel(crowd::SERVICE).await.expect("subchannel");
        if let Err(e) = crowd::register(&sub).await { log.ev(json!({"e": "setup", "what": format!("register: {}", e)})); return false; }
    }
    if let Err(e) = channel.start_server() {
        log.ev(json!({"e": "startfail", "why": e.to_string()}));
        return false;
    }
    let mut peers: HashMap<usize, Peer> = HashMap::new();
    let mut ok = true;
    for step in arr(&sc, "steps") {
        let p = u(step, "p");
        match s(step, "op") {
            "conn" => {
                let stream = match connect(addr, PATIENCE).await {
                    Some(s) => s,
                    None => { log.ev(json!({"e": "noconn", "p": p})); ok = false; break }
                };
                let _ = stream.set_nodelay(true);
                if u(step, "rcvbuf") > 0 { let _ = socket2::SockRef::from(&stream).set_recv_buffer_size(u(step, "rcvbuf")); }
                log.ev(json!({"e": "conn", "p": p, "paused": b(step, "paused")}));
                let sock = raw_socket(&stream);
                let (r, w) = stream.into_split();
                let (tx, rx) = mpsc::unbounded_channel();
                let paused = Arc::new(AtomicBool::new(b(step, "paused")));
                let reader = tokio::spawn(reader(p, r, paused.clone(), ctx.clone(), defs.clone()));
                let wlog = log.clone();
                let wctx = ctx.clone();
                let writer = tokio::spawn(async move {
                    writer(w, rx, wlog, json!({"e": "eof", "p": p}), json!({"e": "wfail", "p": p}), p.to_string(), wctx).await;
                });
                peers.insert(p, Peer { tx, queued: 0, paused, reader, writer, sock });
            }
            "send" => {
                let mut events = Vec::new();
                let mut bytes = Vec::new();
                for f in arr(step, "f") {
                    bytes.extend(defs.encode(f));
                    let mut ev = json!({"e": "tx", "p": p});
                    for k in ["t", "id", "r", "d", "more", "n", "v"] { if let Some(v) = f.get(k) { ev[k] = v.clone() } }
                    if let Some(t) = f.get("as_t") { ev["t"] = t.clone() }
                    events.push(ev);
                }
                if un(step, "keep", usize::MAX) < bytes.len() { bytes.truncate(u(step, "keep")) }
                let cuts = arr(step, "cut").iter().filter_map(|x| x.as_u64().map(|x| x as usize % bytes.len().max(1))).collect::<std::collections::BTreeSet<_>>();
                if let Some(peer) = peers.get_mut(&p) {
                    peer.queued += 1;
                    let _ = peer.tx.send(Write::Bytes(events, bytes, cuts.into_iter().collect()));
                }
            }
            "gate" => {
                log.ev(json!({"e": "gate", "r": u(step, "r")}));
                ctx.open(u(step, "r"));
            }
            "eof" => { if let Some(peer) = peers.get_mut(&p) { peer.queued += 1; let _ = peer.tx.send(Write::Eof); } }
            "rst" => {
                if let Some(peer) = peers.remove(&p) {
                    wait_until(|| ctx.seen.get(&format!("op:{}", p)) >= peer.queued).await;
                    log.ev(json!({"e": "rst", "p": p}));
                    peer.reader.abort();
                    peer.writer.abort();
                    let _ = peer.reader.await;
                    let _ = peer.writer.await;
                    let _ = peer.sock.set_linger(Some(Duration::ZERO));
                    drop(peer.sock);
                }
            }
            "resume" => { if let Some(peer) = peers.get(&p) { log.ev(json!({"e": "resume", "p": p})); peer.paused.store(false, Ordering::Release) } }
            "yield" => yields(un(step, "n", 5)).await,
            "sleep" => tokio::time::sleep(Duration::from_millis(u(step, "ms") as u64)).await,
            "crowd" => { let ev = crowd::run(step, addr).await; log.ev(ev) }
            "sync" => {
                let due = arr(step, "due");
                // steps taken before are events before
                let done = wait_until(|| peers.iter().all(|(p, peer)| ctx.seen.get(&format!("op:{}", p)) >= peer.queued) && ctx.seen.all(due)).await;
                log.ev(json!({"e": "sync", "done": done}));
                if !done { ok = false; break }
            }
            "probe" => {
                #[cfg(tchannel_verif)]
                {
                    let servers = || tchannel_rs::verif::connections().iter().filter(|c| !c.0).count();
                    let want = u(step, "srv");
                    wait_until(|| servers() <= want).await;
                    log.ev(json!({"e": "probe", "srv": servers()}));
                }
            }
            other => { log.ev(json!({"e": "tool", "what": format!("unknown step {}", other)})); ok = false; break }
        }
    }
    if ok { yields(30).await; tokio::time::sleep(Duration::from_millis(2)).await; }
    log.ev(json!({"e": "fin", "ok": ok}));
    log.close();
    for (_, peer) in peers {
        peer.reader.abort();
        peer.writer.abort();
    }
    ok
}
