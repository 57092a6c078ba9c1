//! A connection of its own with many requests in progress at once, whose fragments are interleaved,
//! and whose answers may be left unread for a while.
use crate::srv::{connect, join};
use crate::util::*;
use crate::wire::{self, Frame, Read};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tchannel_rs::handler::{HandlerResult, RequestHandlerAsync};
use tchannel_rs::messages::RawMessage;
use tchannel_rs::{SubChannel, TResult};
use tokio::io::AsyncWriteExt;

pub const SERVICE: &str = "crowd service";
const ENDPOINT: &str = "echo at length";

fn cycle(body: &[u8], len: usize) -> Vec<u8> { body.iter().copied().cycle().take(len).collect() }

#[derive(Debug)]
struct Echo;

/// Answers with the body, repeated up to the length given by the header.
impl RequestHandlerAsync for Echo {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> std::pin::Pin<Box<dyn std::future::Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            let len = request.header().parse().unwrap_or(0);
            yields(len % 4).await;
            Ok(RawMessage::new(request.endpoint().clone(), request.header().clone(), cycle(request.body(), len).into()))
        })
    }
}

pub async fn register(sub: &SubChannel) -> TResult<()> { sub.register_async(ENDPOINT, Echo).await }

/// Event telling how many of the requests were answered in which way.
pub async fn run(step: &Value, addr: SocketAddr) -> Value {
    let (n, slow, seed) = (un(step, "n", 20), b(step, "slow"), u(step, "seed") as u64);
    let mut rng = Rng::new(seed);
    let mut ev = json!({"e": "crowd", "n": n, "answered": 0, "errors": 0, "stray": 0, "wrong": 0});
    let stream = match connect(addr, PATIENCE).await { Some(s) => s, None => return ev };
    let _ = stream.set_nodelay(true);
    if slow { let _ = socket2::SockRef::from(&stream).set_recv_buffer_size(160_000); }
    let (mut r, mut w) = stream.into_split();
    let mut out: Vec<u8> = Frame::new(wire::INIT_REQ, 1, wire::init_payload(2, &wire::init_headers(seed))).encode();
    if w.write_all(&out).await.is_err() { return ev }
    match tokio::time::timeout(PATIENCE, wire::read_frame(&mut r)).await {
        Ok(Read::Frame(f)) if f.ty == wire::INIT_RES => (),
        _ => return ev,
    }
    // requests, and their frames in the order to be written
    let base = rng.next() as u32;
    let mut want: HashMap<u32, (String, Vec<u8>)> = HashMap::new();
    let mut queues: Vec<Vec<Vec<u8>>> = Vec::new();
    for i in 0..n {
        let id = base.wrapping_add(i as u32 * 7);
        let len = if slow { 60_000 + rng.below(80_000) as usize } else { rng.below(600) as usize };
        let body = blob(seed + i as u64, 12 + rng.below(300) as usize);
        let header = len.to_string();
        let k = 2 + rng.below(3) as usize;
        let mut frames = Vec::new();
        for j in 0..k {
            let part = &body[body.len() * j / k..body.len() * (j + 1) / k];
            let first = [ENDPOINT.as_bytes(), header.as_bytes(), part];
            let chunks: Vec<&[u8]> = if j == 0 { first.to_vec() } else { vec![part] };
            let spec = wire::CallSpec {
                req: true, first: j == 0, more: j < k - 1, code: 0, service: SERVICE, scheme: "raw",
                extra_headers: 0, chunks: &chunks, d: "", seed,
            };
            frames.push(Frame::new(if j == 0 { wire::CALL_REQ } else { wire::CALL_REQ_CONT }, id, wire::call_payload(&spec)).encode());
        }
        frames.reverse();
        queues.push(frames);
        want.insert(id, (header, cycle(&body, len)));
    }
    out.clear();
    for q in queues.iter_mut() { out.extend(q.pop().unwrap()) }
    while !queues.is_empty() {
        let i = rng.below(queues.len() as u64) as usize;
        match queues[i].pop() { Some(f) => out.extend(f), None => { queues.swap_remove(i); } }
    }
    let writer = tokio::spawn(async move {
        for part in out.chunks(3000) {
            if w.write_all(part).await.is_err() { break }
            yields(2).await;
        }
        w
    });
    if slow { tokio::time::sleep(Duration::from_millis(600 + rng.below(700))).await }
    let (mut answered, mut errors, mut stray, mut wrong) = (0, 0, 0, 0);
    let mut partial: HashMap<u32, Vec<Vec<u8>>> = HashMap::new();
    let end = Instant::now() + PATIENCE;
    while !want.is_empty() {
        let f = match tokio::time::timeout(end.saturating_duration_since(Instant::now()), wire::read_frame(&mut r)).await {
            Ok(Read::Frame(f)) => f,
            _ => break,
        };
        match f.ty {
            wire::CALL_RES | wire::CALL_RES_CONT => {
                let c = match if f.ty == wire::CALL_RES { wire::parse_call_res(&f.payload) } else { wire::parse_cont(&f.payload) } {
                    Ok(c) => c,
                    Err(_) => { wrong += 1; continue }
                };
                if f.ty == wire::CALL_RES { partial.insert(f.id, Vec::new()); }
                match partial.get_mut(&f.id) { Some(args) => join(args, c.chunks), None => { stray += 1; continue } }
                if c.more { continue }
                let args = partial.remove(&f.id).unwrap();
                match want.remove(&f.id) {
                    None => stray += 1,
                    Some((header, body)) => {
                        answered += 1;
                        if args.len() != 3 || args[1] != header.as_bytes() || args[2] != body { wrong += 1 }
                    }
                }
            }
            wire::ERROR => match want.remove(&f.id) { Some(_) => { answered += 1; errors += 1 } None => stray += 1 },
            _ => stray += 1,
        }
    }
    // anything written twice comes before the answer to a ping
    if let (true, Ok(Ok(mut w))) = (want.is_empty(), tokio::time::timeout(PATIENCE, writer).await) {
        if w.write_all(&Frame::new(wire::PING_REQ, 5, vec![]).encode()).await.is_ok() {
            loop {
                match tokio::time::timeout(PATIENCE, wire::read_frame(&mut r)).await {
                    Ok(Read::Frame(f)) if f.ty == wire::PING_RES => break,
                    Ok(Read::Frame(_)) => stray += 1,
                    _ => break,
                }
            }
        }
    }
    ev["answered"] = json!(answered);
    ev["errors"] = json!(errors);
    ev["stray"] = json!(stray);
    ev["wrong"] = json!(wrong);
    ev
}

/// A server's part: reads (late, if `slow`), and answers when all calls have arrived, fragments of answers interleaved.
struct Desk { n: usize, slow: bool, arrived: AtomicUsize, accepted: AtomicUsize, stray: AtomicUsize }

async fn desk(stream: tokio::net::TcpStream, desk: Arc<Desk>, seed: u64) -> Option<()> {
    let mut rng = Rng::new(seed);
    let (mut r, mut w) = stream.into_split();
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let (mut wait, pause) = (desk.slow, Duration::from_millis(600 + rng.below(700)));
    let _reader = Guard(tokio::spawn(async move {
        while let Read::Frame(f) = wire::read_frame(&mut r).await {
            if f.ty == wire::CALL_REQ && std::mem::take(&mut wait) { tokio::time::sleep(pause).await }
            if tx.send(f).is_err() { break }
        }
        None
    }));
    let mut partial: HashMap<u32, Vec<Vec<u8>>> = HashMap::new();
    let mut done: Vec<(u32, Vec<Vec<u8>>)> = Vec::new();
    while desk.arrived.load(Ordering::SeqCst) < desk.n {
        let f = tokio::select! {
            f = rx.recv() => f?,
            _ = tokio::time::sleep(Duration::from_millis(5)) => continue,
        };
        match f.ty {
            wire::INIT_REQ => w.write_all(&Frame::new(wire::INIT_RES, f.id, wire::init_payload(2, &wire::init_headers(seed))).encode()).await.ok()?,
            wire::PING_REQ => w.write_all(&Frame::new(wire::PING_RES, f.id, vec![]).encode()).await.ok()?,
            wire::CALL_REQ | wire::CALL_REQ_CONT => {
                let c = if f.ty == wire::CALL_REQ { partial.insert(f.id, vec![]); wire::parse_call_req(&f.payload) } else { wire::parse_cont(&f.payload) };
                match (c, partial.get_mut(&f.id)) {
                    (Ok(c), Some(args)) => {
                        let more = c.more;
                        join(args, c.chunks);
                        if !more {
                            done.push((f.id, partial.remove(&f.id).unwrap()));
                            desk.arrived.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                    _ => { desk.stray.fetch_add(1, Ordering::SeqCst); }
                }
            }
            _ => { desk.stray.fetch_add(1, Ordering::SeqCst); }
        }
    }
    let mut queues: Vec<Vec<Vec<u8>>> = Vec::new();
    for (id, args) in done {
        let header = args.get(1).cloned().unwrap_or_default();
        let len = String::from_utf8_lossy(&header).parse().unwrap_or(0);
        let body = cycle(args.get(2).map(|x| x.as_slice()).unwrap_or(&[]), len);
        let k = 1 + rng.below(4) as usize;
        let mut frames = Vec::new();
        for j in 0..k {
            let part = &body[body.len() * j / k..body.len() * (j + 1) / k];
            let first = [b"".as_ref(), &header, part];
            let chunks: Vec<&[u8]> = if j == 0 { first.to_vec() } else { vec![part] };
            let spec = wire::CallSpec {
                req: false, first: j == 0, more: j < k - 1, code: 0, service: "", scheme: "raw", extra_headers: 0, chunks: &chunks, d: "", seed,
            };
            frames.push(Frame::new(if j == 0 { wire::CALL_RES } else { wire::CALL_RES_CONT }, id, wire::call_payload(&spec)).encode());
        }
        frames.reverse();
        queues.push(frames);
    }
    let mut out = Vec::new();
    while !queues.is_empty() {
        let i = rng.below(queues.len() as u64) as usize;
        match queues[i].pop() { Some(f) => out.extend(f), None => { queues.swap_remove(i); } }
    }
    for part in out.chunks(5000) {
        w.write_all(part).await.ok()?;
        yields(2).await;
    }
    // tests of the connection
    loop {
        let f = rx.recv().await?;
        if f.ty == wire::PING_REQ { w.write_all(&Frame::new(wire::PING_RES, f.id, vec![]).encode()).await.ok()? } else { desk.stray.fetch_add(1, Ordering::SeqCst); }
    }
}

/// The same for calls of a client of its own.
pub async fn calls(step: &Value, cfg: &Value, addr: SocketAddr) -> Value {
    let (n, slow, seed) = (un(step, "n", 20), b(step, "slow"), u(step, "seed") as u64);
    let socket = tokio::net::TcpSocket::new_v4().expect("socket");
    let _ = socket.set_reuseaddr(true);
    if slow { let _ = socket.set_recv_buffer_size(160_000); }
    if let Err(e) = socket.bind(addr) { return json!({"e": "tool", "what": format!("bind {}: {}", addr, e)}) }
    let listener = socket.listen(256).expect("listen");
    let state = Arc::new(Desk { n, slow, arrived: AtomicUsize::new(0), accepted: AtomicUsize::new(0), stray: AtomicUsize::new(0) });
    let s2 = state.clone();
    let accept = tokio::spawn(async move {
        let mut tasks = Vec::new();
        while let Ok((stream, _)) = listener.accept().await {
            let _ = stream.set_nodelay(true);
            let c = s2.accepted.fetch_add(1, Ordering::SeqCst);
            tasks.push(Guard(tokio::spawn(desk(stream, s2.clone(), seed + c as u64))));
        }
    });
    let channel = tchannel_rs::TChannel::new(crate::srv::config(cfg, SocketAddr::new(addr.ip(), addr.port() + 1))).expect("channel");
    let mut rng = Rng::new(seed);
    let mut tasks = Vec::new();
    for i in 0..n {
        let sub = channel.subchannel(SERVICE.to_string()).await.expect("subchannel");
        let size = if slow { 60_000 + rng.below(80_000) as usize } else { 12 + rng.below(300) as usize };
        let body = blob(seed + i as u64, size);
        let len = rng.below(40_000) as usize;
        let want = cycle(&body, len);
        tasks.push(tokio::spawn(async move {
            let msg = RawMessage::new(ENDPOINT.to_string(), len.to_string(), body.into());
            let res: HandlerResult<RawMessage> = tchannel_rs::messages::MessageChannel::send(&*sub, msg, addr).await;
            res.map(|m| *m.header() == len.to_string() && m.body()[..] == want[..]).map_err(|e| e.to_string())
        }));
    }
    let (mut returned, mut errors, mut wrong, mut why) = (0, 0, 0, String::new());
    let end = Instant::now() + PATIENCE;
    for mut t in tasks {
        match tokio::time::timeout(end.saturating_duration_since(Instant::now()), &mut t).await {
            Ok(Ok(Ok(same))) => { returned += 1; if !same { wrong += 1 } }
            Ok(Ok(Err(e))) => { returned += 1; errors += 1; why = e.chars().take(120).collect() }
            _ => t.abort(),
        }
    }
    drop(channel);
    accept.abort();
    let _ = accept.await;
    let get = |x: &AtomicUsize| x.load(Ordering::SeqCst);
    json!({"e": "crowd", "n": n, "arrived": get(&state.arrived), "returned": returned, "errors": errors, "wrong": wrong, "why": why,
           "stray": get(&state.stray), "conns": get(&state.accepted), "max": un(cfg, "max", 1)})
}

struct Guard(tokio::task::JoinHandle<Option<()>>);
impl Drop for Guard { fn drop(&mut self) { self.0.abort() } }
