//! Registrations of handlers and requests, racing with each other.
use crate::handlers::Seen;
use crate::srv::config;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::fmt::{Debug, Formatter};
use std::future::Future;
use std::net::{IpAddr, SocketAddr};
use std::pin::Pin;
use std::sync::{Arc, Mutex, Weak};
use tchannel_rs::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use tchannel_rs::messages::{JsonMessage, MessageChannel, RawMessage};
use tchannel_rs::{SubChannel, TChannel};
use tokio::sync::Semaphore;

struct Env { log: Arc<Log>, seen: Seen, gates: HashMap<usize, Semaphore>, tokens: Mutex<Vec<Weak<SubChannel>>> }
impl Debug for Env {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("Env") }
}
impl Env {
    /// Number of a subchannel: the same for the same one.
    fn token(&self, sub: &Arc<SubChannel>) -> usize {
        let mut t = self.tokens.lock().unwrap();
        // does not keep it: the channel has to
        match t.iter().position(|x| x.as_ptr() == Arc::as_ptr(sub)) {
            Some(i) => i + 1,
            None => { t.push(Arc::downgrade(sub)); t.len() }
        }
    }
    fn start(&self, h: usize, i: usize) { self.log.ev(json!({"e": "hstart", "h": h, "i": i})) }
    fn end(&self, h: usize, i: usize) { self.log.ev(json!({"e": "hend", "h": h, "i": i})) }
    async fn gate(&self, i: usize) {
        if let Some(g) = self.gates.get(&i) { if let Ok(p) = g.acquire().await { p.forget() } }
        tokio::task::yield_now().await;
    }
}

#[derive(Debug)]
struct Obj { h: usize, env: Arc<Env> }
impl Drop for Obj {
    fn drop(&mut self) { self.env.log.ev(json!({"e": "hgone", "h": self.h})) }
}

fn number(bytes: &[u8]) -> usize { String::from_utf8_lossy(bytes).split('.').next().and_then(|x| x.parse().ok()).unwrap_or(0) }
fn raw_in(m: &RawMessage) -> usize { number(m.body()) }
fn json_in(m: &JsonMessage) -> usize { m.body().get("i").and_then(Value::as_u64).unwrap_or(0) as usize }
fn raw_out(h: usize, i: usize) -> RawMessage { RawMessage::new("".into(), h.to_string(), bytes::Bytes::from(i.to_string())) }
fn json_out(h: usize, i: usize) -> JsonMessage {
    let obj = |k: &str, v: usize| { let mut m = Map::new(); m.insert(k.into(), json!(v)); m };
    JsonMessage::new("".into(), obj("h", h), obj("i", i))
}

macro_rules! handler {
    ($sync:ident, $asyn:ident, $msg:ident, $input:ident, $output:ident) => {
        #[derive(Debug)]
        struct $sync(Obj);
        #[derive(Debug)]
        struct $asyn(Obj);
        impl RequestHandler for $sync {
            type REQ = $msg;
            type RES = $msg;
            fn handle(&mut self, request: $msg) -> HandlerResult<$msg> {
                let (h, i) = (self.0.h, $input(&request));
                self.0.env.start(h, i);
                self.0.env.end(h, i);
                Ok($output(h, i))
            }
        }
        impl RequestHandlerAsync for $asyn {
            type REQ = $msg;
            type RES = $msg;
            fn handle(&mut self, request: $msg) -> Pin<Box<dyn Future<Output = HandlerResult<$msg>> + Send + '_>> {
                Box::pin(async move {
                    let (h, i) = (self.0.h, $input(&request));
                    self.0.env.start(h, i);
                    self.0.env.gate(i).await;
                    self.0.env.end(h, i);
                    Ok($output(h, i))
                })
            }
        }
    };
}
handler!(RawSync, RawAsync, RawMessage, raw_in, raw_out);
handler!(JsonSync, JsonAsync, JsonMessage, json_in, json_out);

pub async fn run(sc: Value, log: Arc<Log>, ip: IpAddr) -> bool {
    let steps = arr(&sc, "steps").to_vec();
    let keys = arr(&sc, "keys").to_vec();
    let svcs: Vec<String> = arr(&sc, "svcs").iter().map(|x| string_of(Some(x))).collect();
    let mut gates = HashMap::new();
    for st in &steps { if s(st, "op") == "call" { gates.insert(u(st, "i"), Semaphore::new(if b(st, "open") { 1 << 20 } else { 0 })); } }
    let env = Arc::new(Env { log: log.clone(), seen: Seen::new(), gates, tokens: Mutex::new(vec![]) });
    let addr = SocketAddr::new(ip, PORT);
    let server = Arc::new(TChannel::new(config(&sc["cfg"], addr)).expect("channel"));
    let clients: Vec<Arc<TChannel>> = (0..2).map(|_| Arc::new(TChannel::new(config(&sc["cfg"], SocketAddr::new(ip, PORT + 50))).expect("channel"))).collect();
    if let Err(e) = server.start_server() { log.ev(json!({"e": "setup", "what": e.to_string()})); return false; }
    if crate::srv::connect(addr, PATIENCE).await.is_none() { log.ev(json!({"e": "setup", "what": "no server"})); return false; }
    let mut tasks = Vec::new();
    let mut ok = true;
    for step in steps.iter() {
        let i = u(step, "i");
        let op = s(step, "op").to_string();
        let burn = u(step, "burn");
        match op.as_str() {
            "reg" | "unreg" | "call" => {
                let key = keys[u(step, "key") - 1].clone();
                let (svc, ep, js) = (svcs[u(&key, "s") - 1].clone(), string_of(key.get("ep")), b(&key, "json"));
                log.ev(json!({"e": "op", "i": i, "kind": op, "key": u(step, "key"), "h": u(step, "h"), "open": b(step, "open")}));
                let (server, client, step2) = (server.clone(), clients[u(step, "c") % 2].clone(), step.clone());
                let env2 = env.clone();
                let run = async move {
                    let env = env2;
                    let h = u(&step2, "h");
                    if op == "call" {
                        let sub = client.subchannel(svc).await.expect("subchannel");
                        let pad = u(&step2, "pad");
                        let by = if js {
                            let mut m = Map::new();
                            m.insert("i".into(), json!(i));
                            m.insert("pad".into(), json!("x".repeat(pad)));
                            match MessageChannel::send(&*sub, JsonMessage::new(ep, Map::new(), m), addr).await {
                                Ok(m) if json_in(&m) == i => m.headers().get("h").and_then(Value::as_i64).unwrap_or(-1),
                                Ok(_) => -1,
                                Err(_) => 0,
                            }
                        } else {
                            match MessageChannel::send(&*sub, RawMessage::new(ep, String::new(), bytes::Bytes::from(format!("{}.{}", i, "y".repeat(pad)))), addr).await {
                                Ok(m) if raw_in(&m) == i => number(m.header().as_bytes()) as i64,
                                Ok(_) => -1,
                                Err(_) => 0,
                            }
                        };
                        env.log.ev(json!({"e": "cret", "i": i, "h": by}));
                    } else {
                        let sub = busy(burn, server.subchannel(svc)).await.expect("subchannel");
                        env.log.ev(json!({"e": "sub", "s": u(&key, "s"), "id": env.token(&sub)}));
                        let res = if op == "unreg" { busy(burn, sub.unregister(ep)).await } else {
                            let obj = Obj { h, env: env.clone() };
                            match (js, b(&step2, "sync")) {
                                (false, true) => busy(burn, sub.register(ep, RawSync(obj))).await,
                                (false, false) => busy(burn, sub.register_async(ep, RawAsync(obj))).await,
                                (true, true) => busy(burn, sub.register(ep, JsonSync(obj))).await,
                                (true, false) => busy(burn, sub.register_async(ep, JsonAsync(obj))).await,
                            }
                        };
                        env.log.ev(json!({"e": "ret", "i": i, "ok": res.is_ok()}));
                    }
                    env.seen.add(i.to_string());
                };
                tasks.push(tokio::spawn(run));
                if b(step, "wait") { wait_until(|| env.seen.get(&i.to_string()) > 0).await; }
            }
            "sub" => {
                let si = u(&keys[u(step, "key") - 1], "s");
                for _ in 0..u(step, "n") {
                    let (env, server, svc) = (env.clone(), server.clone(), svcs[si - 1].clone());
                    tasks.push(tokio::spawn(async move {
                        let sub = busy(burn, server.subchannel(svc)).await.expect("subchannel");
                        env.log.ev(json!({"e": "sub", "s": si, "id": env.token(&sub)}));
                    }));
                }
            }
            "open" => { log.ev(json!({"e": "open", "i": i})); if let Some(g) = env.gates.get(&i) { g.add_permits(1 << 16) } }
            "yield" => yields(un(step, "n", 5)).await,
            "sleep" => tokio::time::sleep(std::time::Duration::from_millis(u(step, "ms") as u64)).await,
            "sync" => {
                let done = wait_until(|| arr(step, "due").iter().all(|d| env.seen.get(&d.to_string()) > 0)).await;
                yields(20).await;
                log.ev(json!({"e": "sync", "done": done, "mt": u(&sc, "mt") > 0}));
                if !done { ok = false; break }
            }
            other => { log.ev(json!({"e": "tool", "what": format!("unknown step {}", other)})); ok = false; break }
        }
    }
    if ok { yields(30).await; }
    log.ev(json!({"e": "fin", "ok": ok}));
    log.close();
    for t in tasks { t.abort() }
    ok
}
