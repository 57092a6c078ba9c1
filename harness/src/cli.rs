//! A real client against servers that follow the scenario.
use crate::crowd;
use crate::handlers::*;
use crate::srv::{config, hex, join, raw_socket, writer, Write};
use crate::util::*;
use crate::wire::{self, Frame, Read};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tchannel_rs::messages::MessageChannel;
use tchannel_rs::{errors::HandlerError, TChannel};
use tokio::net::tcp::OwnedReadHalf;
use tokio::net::TcpListener;
use tokio::sync::mpsc;
use tokio::task::JoinHandle;

struct Addr { addr: SocketAddr, listener: Option<JoinHandle<()>>, up: bool, hs: String, ping: String, paused: bool }

struct Conn {
    a: usize,
    tx: mpsc::UnboundedSender<Write>,
    queued: usize,
    lost: bool,
    closed: bool,
    /// answer to the handshake not given yet: id of the request
    waiting: Option<u32>,
    /// a handshake or ping will never be answered
    muted: Option<Instant>,
    /// pings are not answered any more
    frozen: bool,
    tasks: Vec<JoinHandle<()>>,
    sock: Option<Arc<socket2::Socket>>,
}

#[derive(Default)]
struct Call { task: Option<JoinHandle<()>>, started: bool, at: Option<(usize, u32)>, dropped: bool, returned: bool, fin: bool }

struct St { addrs: Vec<Addr>, conns: Vec<Conn>, calls: Vec<Call> }

struct Env { log: Arc<Log>, ctx: Arc<Ctx>, st: Mutex<St>, defs: Vec<Value>, msgs: Vec<Msg>, reqs: HashMap<u64, Vec<usize>>, ress: HashMap<u64, Vec<usize>>, outs: Vec<Msg> }

impl Env {
    fn st(&self) -> std::sync::MutexGuard<'_, St> { self.st.lock().unwrap() }
}

pub fn addr_of(v: &Value, ip: IpAddr) -> SocketAddr {
    let o = match ip { IpAddr::V4(x) => x.octets(), _ => unreachable!() };
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(o[0], o[1] + 128 * (u(v, "host") as u8 % 2), o[2], o[3])), PORT + u(v, "port") as u16)
}

async fn listen(env: Arc<Env>, a: usize, rcvbuf: usize) -> bool {
    let addr = env.st().addrs[a - 1].addr;
    let socket = match addr { SocketAddr::V4(_) => tokio::net::TcpSocket::new_v4(), _ => tokio::net::TcpSocket::new_v6() }.expect("socket");
    let _ = socket.set_reuseaddr(true);
    if rcvbuf > 0 { let _ = socket.set_recv_buffer_size(rcvbuf as u32); }
    if let Err(e) = socket.bind(addr) { env.log.ev(json!({"e": "tool", "what": format!("bind {}: {}", addr, e)})); return false; }
    let listener: TcpListener = socket.listen(256).expect("listen");
    let e2 = env.clone();
    let task = tokio::spawn(async move {
        while let Ok((stream, _)) = listener.accept().await {
            let _ = stream.set_nodelay(true);
            let sock = raw_socket(&stream);
            let (r, w) = stream.into_split();
            let (tx, rx) = mpsc::unbounded_channel();
            // always the log before the state
            let c = e2.log.with(|| {
                let mut st = e2.st();
                let c = st.conns.len() + 1;
                st.conns.push(Conn { a, tx, queued: 0, lost: false, closed: false, waiting: None, muted: None, frozen: false, tasks: vec![], sock: Some(sock) });
                (c, json!({"e": "accept", "a": a, "c": c}))
            });
            let (log, ctx) = (e2.log.clone(), e2.ctx.clone());
            let t1 = tokio::spawn(async move {
                let w = writer(w, rx, log, json!({"e": "lose", "c": c, "how": "fin"}), json!({"e": "swfail", "c": c}), format!("c{}", c), ctx).await;
                w.forget(); // closed along with the other half
            });
            let t2 = tokio::spawn(serve(e2.clone(), c, a, r));
            e2.st().conns[c - 1].tasks = vec![t1, t2];
        }
    });
    let mut st = env.st();
    st.addrs[a - 1].listener = Some(task);
    st.addrs[a - 1].up = true;
    true
}

fn enqueue(env: &Env, c: usize, op: Write) {
    let mut st = env.st();
    let conn = &mut st.conns[c - 1];
    conn.queued += 1;
    let _ = conn.tx.send(op);
}

fn handshake(env: &Env, c: usize, id: u32, mode: &str) {
    let init = |v: u16| Frame::new(wire::INIT_RES, id, wire::init_payload(v, &wire::init_headers(env.msgs.iter().flat_map(|m| m.args.iter()).map(|a| a.len() as u64).sum::<u64>() + 7919 * c as u64))).encode();
    let bytes = match mode {
        "ok" => init(2),
        // said more often than asked for
        "dup" => [init(2), init(2), init(2), init(2), init(2), init(2)].concat(),
        v if v.starts_with('v') => init(v[1..].parse().unwrap()),
        "err" => Frame::new(wire::ERROR, id, wire::error_payload(0xff, "no")).encode(),
        "type" => Frame::new(wire::PING_RES, id, vec![]).encode(),
        "req" => Frame::new(wire::INIT_REQ, id, wire::init_payload::<&str>(2, &[])).encode(),
        "trunc" => Frame::new(wire::INIT_RES, id, vec![0]).encode(),
        "over" => Frame::new(wire::INIT_RES, id, vec![0, 2, 0, 9, 0, 1]).encode(),
        "garbage" => vec![0, 3, 0xee, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9],
        _ => vec![],
    };
    let ok = mode == "ok" || mode == "dup";
    let ev = json!({"e": "hs", "c": c, "ok": ok, "mute": mode == "mute"});
    if mode == "mute" {
        env.log.with(|| { env.st().conns[c - 1].muted = Some(Instant::now()); ((), ev) });
        return;
    }
    enqueue(env, c, Write::Bytes(vec![ev], bytes, vec![]));
    if mode == "close" { enqueue(env, c, Write::Eof); }
}

/// Reads what the client writes.
async fn serve(env: Arc<Env>, c: usize, a: usize, mut r: OwnedReadHalf) {
    let log = env.log.clone();
    let mut partial: HashMap<u32, (wire::Call, Vec<Vec<u8>>)> = HashMap::new();
    let mut first = true;
    loop {
        let read = wire::read_frame(&mut r).await;
        if !first {
            loop {
                if !env.st().addrs[a - 1].paused { break; }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        let f = match read {
            Read::Frame(f) => f,
            end => {
                let how = match &end { Read::Eof => "eof", Read::Broken(h) if h.starts_with("Connection") || h.starts_with("end inside") => "broken", _ => "garbage" };
                log.with(|| {
                    env.st().conns[c - 1].closed = true;
                    ((), json!({"e": "sclosed", "c": c, "how": how}))
                });
                // the other half goes, too
                enqueue(&env, c, Write::Eof);
                return;
            }
        };
        let mut ev = json!({"e": "srx", "c": c, "t": wire::type_name(f.ty), "id": f.id.to_string(), "len": f.len(), "bad": "", "v": 0, "more": false, "ch": [], "svc": "", "as": "", "m": [], "last": false, "args": []});
        let mut at = None;
        match f.ty {
            wire::INIT_REQ => match wire::parse_init(&f.payload) {
                Ok(v) => ev["v"] = json!(v),
                Err(e) => ev["bad"] = json!(e),
            },
            wire::CALL_REQ | wire::CALL_REQ_CONT => {
                let head = f.ty == wire::CALL_REQ;
                match if head { wire::parse_call_req(&f.payload) } else { wire::parse_cont(&f.payload) } {
                    Err(e) => ev["bad"] = json!(e),
                    Ok(call) => {
                        ev["more"] = json!(call.more);
                        ev["ch"] = json!(call.chunks.iter().map(|x| x.len()).collect::<Vec<_>>());
                        if head { ev["svc"] = json!(call.service); ev["as"] = json!(call.header("as")); }
                        let more = call.more;
                        if head {
                            let chunks = call.chunks.clone();
                            partial.insert(f.id, (call, chunks));
                        } else if let Some((_, args)) = partial.get_mut(&f.id) {
                            join(args, call.chunks);
                        }
                        if !more {
                            ev["last"] = json!(true);
                            if let Some((head, args)) = partial.remove(&f.id) {
                                ev["args"] = json!(args.iter().map(|x| x.len()).collect::<Vec<_>>());
                                if args.len() == 3 {
                                    let h = hash_args(head.header("as") == "json", &args[0], &args[1], &args[2]);
                                    let m = env.reqs.get(&h).cloned().unwrap_or_default();
                                    at = m.first().copied();
                                    ev["m"] = json!(m);
                                }
                            }
                        }
                    }
                }
            }
            wire::PING_REQ => if !f.payload.is_empty() { ev["bad"] = json!("payload") },
            wire::ERROR => if let Err(e) = wire::parse_error(&f.payload) { ev["bad"] = json!(e) },
            _ => (),
        }
        log.with(|| {
            if let Some(k) = at {
                let call = &mut env.st().calls[k - 1];
                if call.at.is_none() { call.at = Some((c, f.id)) }
            }
            ((), ev)
        });
        match f.ty {
            wire::INIT_REQ if first => {
                let mode = env.st().addrs[a - 1].hs.clone();
                if mode == "delay" { env.st().conns[c - 1].waiting = Some(f.id) } else { handshake(&env, c, f.id, &mode) }
            }
            wire::PING_REQ => {
                let ping = env.st().addrs[a - 1].ping.clone();
                if ping == "mute" || env.st().conns[c - 1].frozen {
                    log.with(|| {
                        let mut st = env.st();
                        // the last to wait for it may not have waited for long
                        let again = st.calls.iter().any(|x| x.dropped);
                        let x = &mut st.conns[c - 1];
                        let mute = !x.frozen || again;
                        if mute { x.muted = Some(Instant::now()) }
                        x.frozen = true;
                        ((), json!({"e": "nopong", "c": c, "mute": mute}))
                    });
                    continue;
                }
                let (ok, bytes) = match ping.as_str() {
                    "err" => (false, Frame::new(wire::ERROR, f.id, wire::error_payload(0xff, "no ping")).encode()),
                    "type" => (false, Frame::new(wire::INIT_RES, f.id, wire::init_payload::<&str>(2, &[])).encode()),
                    "fin" => (false, vec![]),
                    "dup" => (true, Frame::new(wire::PING_RES, f.id, vec![]).encode().repeat(6)),
                    _ => (true, Frame::new(wire::PING_RES, f.id, vec![]).encode()),
                };
                if ping == "fin" {
                    env.st().conns[c - 1].lost = true;
                    enqueue(&env, c, Write::Eof);
                } else {
                    enqueue(&env, c, Write::Bytes(vec![json!({"e": "pong", "c": c, "ok": ok})], bytes, vec![]));
                }
            }
            _ => (),
        }
        first = false;
    }
}

async fn call(env: Arc<Env>, channel: Arc<TChannel>, k: usize, addr: SocketAddr, text: bool, burn: usize) {
    let def = &env.defs[k - 1];
    let sub = channel.subchannel(string_of(def.get("svc"))).await.expect("subchannel");
    let msg = &env.msgs[k - 1];
    let (out, h, why) = if msg.json {
        let res = if text { busy(burn, MessageChannel::send(&*sub, msg.json(), addr.to_string())).await } else { busy(burn, MessageChannel::send(&*sub, msg.json(), addr)).await };
        match res {
            Ok(m) => ("ok", Some(hash_json(&m)), String::new()),
            Err(HandlerError::MessageError(m)) => ("msg", Some(hash_json(&m)), String::new()),
            Err(e) => ("err", None, e.to_string()),
        }
    } else {
        let res = if text { busy(burn, MessageChannel::send(&*sub, msg.raw(), addr.to_string())).await } else { busy(burn, MessageChannel::send(&*sub, msg.raw(), addr)).await };
        match res {
            Ok(m) => ("ok", Some(hash_raw(&m)), String::new()),
            Err(HandlerError::MessageError(m)) => ("msg", Some(hash_raw(&m)), String::new()),
            Err(e) => ("err", None, e.to_string()),
        }
    };
    let m = h.and_then(|h| env.ress.get(&h).cloned()).unwrap_or_default();
    env.log.with(|| {
        env.st().calls[k - 1].returned = true;
        ((), json!({"e": "ret", "k": k, "out": out, "m": m, "why": why.chars().take(120).collect::<String>()}))
    });
}

fn frame_bytes(env: &Env, f: &Value, id: u32) -> Vec<u8> {
    let d = s(f, "d");
    let seed = u(f, "seed") as u64;
    match s(f, "t") {
        "res" | "rescont" => {
            let k = u(f, "of");
            let def = &env.defs[k - 1];
            let msg = &env.outs[k - 1];
            let mut args = msg.args.clone();
            match (u(&def["out"], "inv"), msg.json) {
                (0, _) => (),
                (x, _) if args[x - 1].is_empty() => (),
                (x, true) => { let n = args[x - 1].len() - 1; args[x - 1][if u(def, "seed") % 2 == 0 { 0 } else { n }] = b'?' }
                (x, false) => args[x - 1][0] = 0xff,
            }
            let chunks: Vec<&[u8]> = arr(f, "ch").iter().map(|c| {
                let (x, off, len) = (c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize, c[2].as_u64().unwrap() as usize);
                &args[x - 1][off..off + len]
            }).collect();
            let first = s(f, "t") == "res";
            let scheme = if (d == "wrongas") != msg.json { "json" } else { "raw" };
            let code = match s(&def["out"], "k") { "msg" => 1, _ => 0 };
            let spec = wire::CallSpec { req: false, first, more: b(f, "more"), code, service: "", scheme, extra_headers: u(f, "hdr"), chunks: &chunks, d, seed };
            Frame::new(if first { wire::CALL_RES } else { wire::CALL_RES_CONT }, id, wire::call_payload(&spec)).encode()
        }
        "error" => {
            let mut p = wire::error_payload(un(f, "code", 5) as u8, &text(seed, un(f, "len", 10)));
            match d { "trunc" => p.truncate((seed % 27) as usize), "over" => { p[26] = 0xff; p[27] = 0xff } _ => () }
            Frame::new(wire::ERROR, id, p).encode()
        }
        _ => {
            let p = match f.get("hex") { Some(_) => hex(s(f, "hex")), None => blob(seed, u(f, "len")) };
            Frame::new(u(f, "ty") as u8, id, p).encode()
        }
    }
}

pub async fn run(sc: Value, log: Arc<Log>, ip: IpAddr) -> bool {
    let defs = arr(&sc, "calls").to_vec();
    let msgs: Vec<Msg> = defs.iter().map(Msg::of).collect();
    let outs: Vec<Msg> = defs.iter().map(|d| Msg::of(&d["out"])).collect();
    let mut reqs: HashMap<u64, Vec<usize>> = HashMap::new();
    let mut ress: HashMap<u64, Vec<usize>> = HashMap::new();
    for i in 0..defs.len() {
        reqs.entry(msgs[i].hash()).or_default().push(i + 1);
        ress.entry(outs[i].hash()).or_default().push(i + 1);
    }
    let addrs = arr(&sc, "addrs").iter().map(|v| Addr { addr: addr_of(v, ip), listener: None, up: false, hs: "ok".into(), ping: "ok".into(), paused: false }).collect();
    let calls = defs.iter().map(|_| Call::default()).collect();
    let ctx = Arc::new(Ctx::new(log.clone(), &[]));
    let env = Arc::new(Env { log: log.clone(), ctx: ctx.clone(), st: Mutex::new(St { addrs, conns: vec![], calls }), defs, msgs, reqs, ress, outs });
    let rcvbuf = u(&sc["cfg"], "rcvbuf");
    let n = env.st().addrs.len();
    for a in 1..=n { if !listen(env.clone(), a, rcvbuf).await { return false; } }
    let channel = Arc::new(TChannel::new(config(&sc["cfg"], SocketAddr::new(ip, PORT + 50))).expect("channel"));
    let mut ok = true;
    // everything written
    let flushed = |env: &Env, c: usize| { let q = env.st().conns[c - 1].queued; ctx.seen.get(&format!("op:c{}", c)) >= q };
    let blocked = |st: &St, a: usize| {
        let x = &st.addrs[a - 1];
        !x.up || !(x.hs == "ok" || x.hs == "dup") || x.paused || st.conns.iter().any(|c| c.a == a && c.muted.is_some() && !c.closed)
    };
    for step in arr(&sc, "steps") {
        let a = u(step, "a");
        let k = u(step, "k");
        match s(step, "op") {
            "call" => {
                let a = u(&env.defs[k - 1], "a");
                let addr = env.st().addrs[a - 1].addr;
                #[cfg(tchannel_verif)]
                if step.get("base").is_some() { tchannel_rs::verif::jump_to_message_id(id_of(step, "base")); }
                if let Some(jump) = step.get("jump") {
                    let of = u(jump, "of");
                    let id = if of > 0 { env.st().calls[of - 1].at.map(|x| x.1) } else { Some(id_of(jump, "id")) };
                    #[cfg(tchannel_verif)]
                    if let Some(id) = id {
                        log.ev(json!({"e": "jump", "id": id.to_string()}));
                        tchannel_rs::verif::jump_to_message_id(id);
                    }
                    let _ = id;
                }
                log.with(|| { env.st().calls[k - 1].started = true; ((), json!({"e": "call", "k": k})) });
                let task = tokio::spawn(call(env.clone(), channel.clone(), k, addr, b(step, "text"), u(step, "burn")));
                env.st().calls[k - 1].task = Some(task);
            }
            "drop" => {
                let task = { let mut st = env.st(); if st.calls[k - 1].returned { None } else { st.calls[k - 1].task.take() } };
                if let Some(task) = task {
                    task.abort();
                    match task.await {
                        Err(e) if e.is_cancelled() => log.with(|| { env.st().calls[k - 1].dropped = true; ((), json!({"e": "drop", "k": k})) }),
                        _ => (),
                    }
                }
            }
            "send" => {
                // waits for calls to be answered
                let mut groups: BTreeMap<usize, (Vec<Value>, Vec<u8>)> = BTreeMap::new();
                for f in arr(step, "f") {
                    let via = un(f, "via", u(f, "k"));
                    wait_until_for(Duration::from_secs(5), &mut || {
                        let st = env.st();
                        let call = &st.calls[via - 1];
                        call.at.is_some() || call.returned || call.dropped || !call.started || blocked(&st, u(&env.defs[via - 1], "a"))
                    }).await;
                    let mut st = env.st();
                    let (c, at_id) = match st.calls[via - 1].at { Some(x) => x, None => continue };
                    if st.conns[c - 1].lost || st.conns[c - 1].closed { continue; }
                    let id = match f.get("id") {
                        Some(_) => id_of(f, "id"),
                        None => match u(f, "idof") { 0 => at_id, j => match st.calls[j - 1].at { Some((c2, id)) if c2 == c => id.wrapping_add(u(f, "off") as u32), _ => continue } },
                    };
                    let kk = u(f, "k");
                    if kk > 0 && b(f, "fin") { st.calls[kk - 1].fin = true; }
                    drop(st);
                    let g = groups.entry(c).or_default();
                    g.0.push(json!({"e": "stx", "c": c, "k": kk, "id": id.to_string(), "t": f["t"], "d": s(f, "d"), "more": b(f, "more"), "inv": u(f, "inv")}));
                    g.1.extend(frame_bytes(&env, f, id));
                }
                for (c, (events, bytes)) in groups {
                    let cuts = arr(step, "cut").iter().filter_map(|x| x.as_u64().map(|x| x as usize % bytes.len().max(1))).collect::<std::collections::BTreeSet<_>>();
                    enqueue(&env, c, Write::Bytes(events, bytes, cuts.into_iter().collect()));
                }
            }
            "close" => {
                let c = { let st = env.st(); st.calls[k - 1].at.map(|x| x.0).or_else(|| (1..=st.conns.len()).rev().find(|c| st.conns[c - 1].a == u(&env.defs[k - 1], "a"))) };
                if let Some(c) = c {
                    let gone = { let mut st = env.st(); let x = &mut st.conns[c - 1]; let gone = x.lost || x.closed; x.lost = true; gone };
                    if gone { continue; }
                    match s(step, "how") {
                        "rst" => {
                            wait_until(|| flushed(&env, c)).await;
                            let (tasks, sock) = { let mut st = env.st(); (std::mem::take(&mut st.conns[c - 1].tasks), st.conns[c - 1].sock.take()) };
                            log.ev(json!({"e": "lose", "c": c, "how": "rst"}));
                            for t in tasks { t.abort(); let _ = t.await; }
                            if let Some(sock) = sock { let _ = sock.set_linger(Some(Duration::ZERO)); drop(sock); }
                            env.st().conns[c - 1].closed = true;
                        }
                        "garbage" => enqueue(&env, c, Write::Bytes(vec![json!({"e": "lose", "c": c, "how": "garbage"})], hex(s(step, "hex")), vec![])),
                        "half" => {
                            enqueue(&env, c, Write::Bytes(vec![json!({"e": "lose", "c": c, "how": "half"})], hex(s(step, "hex")), vec![]));
                            enqueue(&env, c, Write::Eof);
                        }
                        _ => enqueue(&env, c, Write::Eof),
                    }
                }
            }
            "down" => {
                let task = { let mut st = env.st(); st.addrs[a - 1].up = false; st.addrs[a - 1].listener.take() };
                log.ev(json!({"e": "down", "a": a}));
                if let Some(t) = task { t.abort(); let _ = t.await; }
            }
            "up" => {
                if !env.st().addrs[a - 1].up {
                    log.ev(json!({"e": "up", "a": a}));
                    if !listen(env.clone(), a, rcvbuf).await { return false; }
                }
            }
            "hs" => {
                log.ev(json!({"e": "mode", "a": a, "ok": (["ok", "dup"].contains(&s(step, "how")))}));
                env.st().addrs[a - 1].hs = s(step, "how").to_string();
                if s(step, "how") == "ok" {
                    let waiting: Vec<(usize, u32)> = { let mut st = env.st(); (1..=st.conns.len()).filter(|c| st.conns[c - 1].a == a).collect::<Vec<_>>().into_iter().filter_map(|c| st.conns[c - 1].waiting.take().map(|id| (c, id))).collect() };
                    for (c, id) in waiting { handshake(&env, c, id, "ok") }
                }
            }
            "ping" => {
                log.ev(json!({"e": "pmode", "a": a, "ok": (["ok", "dup"].contains(&s(step, "how")))}));
                env.st().addrs[a - 1].ping = s(step, "how").to_string();
            }
            "pause" => { log.ev(json!({"e": "pause", "a": a})); env.st().addrs[a - 1].paused = true }
            "resume" => { log.ev(json!({"e": "unpause", "a": a})); env.st().addrs[a - 1].paused = false }
            "crowd" => { let ev = crowd::calls(step, &sc["cfg"], SocketAddr::new(ip, PORT + 60)).await; log.ev(ev) }
            "yield" => yields(un(step, "n", 5)).await,
            "sleep" => tokio::time::sleep(Duration::from_millis(u(step, "ms") as u64)).await,
            "sync" => {
                let done = wait_until(|| {
                    let st = env.st();
                    for (i, call) in st.calls.iter().enumerate() {
                        if !call.started || call.dropped || call.returned { continue; }
                        match call.at {
                            None => if !blocked(&st, u(&env.defs[i], "a")) { return false; },
                            Some((c, _)) => if call.fin || st.conns[c - 1].lost || st.conns[c - 1].closed { return false; },
                        }
                    }
                    for (i, c) in st.conns.iter().enumerate() {
                        if ctx.seen.get(&format!("op:c{}", i + 1)) < c.queued && !c.closed { return false; }
                    }
                    true
                }).await;
                log.ev(json!({"e": "sync", "done": done}));
                if !done { ok = false; break }
            }
            "age" => {
                // longer than any timeout and any interval of the client
                log.ev(json!({"e": "age"}));
                tokio::time::sleep(Duration::from_secs(36)).await;
                log.with(|| {
                    let mut st = env.st();
                    let solved: Vec<usize> = (1..=st.conns.len()).filter(|c| st.conns[c - 1].muted.map_or(false, |t| t.elapsed() > Duration::from_secs(33))).collect();
                    for c in solved.iter() { st.conns[c - 1].muted = None; }
                    ((), json!({"e": "aged", "solved": solved}))
                });
            }
            "probe" => {
                #[cfg(tchannel_verif)]
                {
                    let outstanding = || env.st().calls.iter().filter(|c| c.started && !c.dropped && !c.returned).count();
                    let client = || tchannel_rs::verif::connections().into_iter().filter(|c| c.0).map(|c| c.1).collect::<Vec<_>>();
                    let pending = || client().iter().map(|p| p.unwrap_or(1 << 20)).sum::<usize>();
                    wait_until_for(Duration::from_secs(5), &mut || pending() <= outstanding()).await;
                    log.ev(json!({"e": "probe", "pending": pending(), "conns": client().len()}));
                }
            }
            other => { log.ev(json!({"e": "tool", "what": format!("unknown step {}", other)})); ok = false; break }
        }
    }
    if ok { yields(30).await; tokio::time::sleep(Duration::from_millis(2)).await; }
    log.ev(json!({"e": "fin", "ok": ok}));
    log.close();
    let mut st = env.st();
    for call in st.calls.iter() { if let Some(t) = &call.task { t.abort() } }
    for a in st.addrs.iter() { if let Some(t) = &a.listener { t.abort() } }
    for c in st.conns.iter_mut() { for t in c.tasks.iter() { t.abort() } c.sock = None; }
    ok
}
