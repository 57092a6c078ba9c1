//! Handlers and messages whose contents are known from the scenario.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt::{Debug, Formatter};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tchannel_rs::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
use tchannel_rs::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use tchannel_rs::messages::{JsonMessage, RawMessage};
use tchannel_rs::{SubChannel, TResult};
use tokio::sync::Semaphore;

/// A message: scheme and its three arguments as they are on the wire.
#[derive(Clone, Debug)]
pub struct Msg {
    pub json: bool,
    pub args: [Vec<u8>; 3],
}

impl Msg {
    /// From {"json", "ep" (string or {len, seed}), "l2", "l3", "seed"}
    pub fn of(v: &Value) -> Msg {
        let seed = u(v, "seed") as u64;
        let ep = string_of(v.get("ep")).into_bytes();
        let (l2, l3) = (u(v, "l2"), u(v, "l3"));
        let json = b(v, "json");
        let args = if json {
            [ep, Value::Object(object(seed, l2)).to_string().into_bytes(), Value::Object(object(seed + 1, l3)).to_string().into_bytes()]
        } else {
            [ep, text(seed, l2).into_bytes(), blob(seed, l3)]
        };
        Msg { json, args }
    }

    /// Equal for messages a user cannot tell apart.
    pub fn hash(&self) -> u64 { hash_args(self.json, &self.args[0], &self.args[1], &self.args[2]) }
    pub fn raw(&self) -> RawMessage {
        RawMessage::new(
            String::from_utf8(self.args[0].clone()).unwrap(),
            String::from_utf8(self.args[1].clone()).unwrap(),
            bytes::Bytes::from(self.args[2].clone()),
        )
    }
    pub fn json(&self) -> JsonMessage {
        JsonMessage::new(
            String::from_utf8(self.args[0].clone()).unwrap(),
            serde_json::from_slice(&self.args[1]).unwrap(),
            serde_json::from_slice(&self.args[2]).unwrap(),
        )
    }
}

/// Arguments as found on the wire.
pub fn hash_args(json: bool, a: &[u8], b: &[u8], c: &[u8]) -> u64 {
    if json {
        let canon = |x: &[u8]| match serde_json::from_slice::<Value>(x) {
            Ok(v @ Value::Object(_)) => v.to_string().into_bytes(),
            _ => [b"\0invalid".as_ref(), x].concat(),
        };
        fnv(&[b"json", a, &canon(b), &canon(c)])
    } else {
        fnv(&[b"raw", a, b, c])
    }
}
pub fn hash_raw(m: &RawMessage) -> u64 { fnv(&[b"raw", m.endpoint().as_bytes(), m.header().as_bytes(), m.body()]) }
pub fn hash_json(m: &JsonMessage) -> u64 {
    fnv(&[b"json", m.method_name().as_bytes(), Value::Object(m.headers().clone()).to_string().as_bytes(), Value::Object(m.body().clone()).to_string().as_bytes()])
}

/// What a handler is to return for a request.
#[derive(Clone, Debug)]
pub struct Out {
    pub k: String,
    pub msg: Msg,
    pub text: String,
    pub variant: usize,
}
impl Out {
    pub fn of(v: &Value) -> Out {
        Out { k: s(v, "k").to_string(), msg: Msg::of(v), text: text(u(v, "seed") as u64, un(v, "tl", 5)), variant: u(v, "var") }
    }
    fn tchannel_error(&self) -> TChannelError {
        match self.variant % 4 {
            0 => TChannelError::Error(self.text.clone()),
            1 => TChannelError::CodecError(CodecError::Error(self.text.clone())),
            2 => TChannelError::ConnectionError(ConnectionError::Error(self.text.clone())),
            _ => TChannelError::ConnectionPoolError(bb8::RunError::TimedOut),
        }
    }
}
pub struct Seen(pub Mutex<HashMap<String, usize>>);
impl Seen {
    pub fn new() -> Seen { Seen(Mutex::new(HashMap::new())) }
    pub fn add(&self, k: String) { *self.0.lock().unwrap().entry(k).or_insert(0) += 1 }
    pub fn get(&self, k: &str) -> usize { *self.0.lock().unwrap().get(k).unwrap_or(&0) }
    pub fn all(&self, due: &[Value]) -> bool {
        let seen = self.0.lock().unwrap();
        due.iter().all(|d| *seen.get(d[0].as_str().unwrap_or("")).unwrap_or(&0) >= d[1].as_u64().unwrap_or(1) as usize)
    }
}

/// State shared by the handlers of a scenario.
pub struct Ctx {
    pub log: Arc<Log>,
    pub seen: Seen,
    /// requests by content
    pub requests: HashMap<u64, Vec<usize>>,
    pub outs: HashMap<usize, Out>,
    pub gates: HashMap<usize, Semaphore>,
    pub started: Mutex<Vec<usize>>,
    pub invocations: Mutex<usize>,
}
impl Debug for Ctx {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("Ctx") }
}
impl Ctx {
    /// `reqs`: definitions with "ep", "l2", "l3", "json", "seed", "out", "open" (gate open from the start).
    pub fn new(log: Arc<Log>, reqs: &[Value]) -> Ctx {
        let mut ctx = Ctx {
            log,
            seen: Seen::new(),
            requests: HashMap::new(),
            outs: HashMap::new(),
            gates: HashMap::new(),
            started: Mutex::new(Vec::new()),
            invocations: Mutex::new(0),
        };
        for (i, r) in reqs.iter().enumerate() {
            ctx.requests.entry(Msg::of(r).hash()).or_default().push(i + 1);
            ctx.outs.insert(i + 1, Out::of(&r["out"]));
            ctx.gates.insert(i + 1, Semaphore::new(if b(r, "open") { 1 << 20 } else { 0 }));
        }
        ctx
    }
    pub fn open(&self, r: usize) { if let Some(g) = self.gates.get(&r) { g.add_permits(1 << 16) } }

    fn start(self: &Arc<Self>, h: usize, hash: u64) -> Invocation {
        let mut started = self.started.lock().unwrap();
        let rs = self.requests.get(&hash).cloned().unwrap_or_default();
        // contents are distinct, unless a request is handled again
        let r = rs.iter().find(|r| !started.contains(r)).or(rs.first()).copied().unwrap_or(0);
        started.push(r);
        drop(started);
        let inv = { let mut n = self.invocations.lock().unwrap(); *n += 1; *n };
        self.log.ev(json!({"e": "hstart", "h": h, "r": r, "inv": inv}));
        self.seen.add(format!("hstart:{}", r));
        Invocation { ctx: self.clone(), h, r, inv, done: false }
    }
}

/// Logs when a handler ends, also when it is dropped before.
struct Invocation { ctx: Arc<Ctx>, h: usize, r: usize, inv: usize, done: bool }
impl Invocation {
    fn end(mut self) -> Option<Out> {
        self.done = true;
        self.ctx.log.ev(json!({"e": "hend", "h": self.h, "r": self.r, "inv": self.inv}));
        self.ctx.seen.add(format!("hend:{}", self.r));
        self.ctx.outs.get(&self.r).cloned()
    }
}
impl Drop for Invocation {
    fn drop(&mut self) {
        if !self.done {
            self.ctx.log.ev(json!({"e": "hdrop", "h": self.h, "r": self.r, "inv": self.inv}));
            self.ctx.seen.add(format!("hdrop:{}", self.r));
        }
    }
}

macro_rules! handler {
    ($sync:ident, $asyn:ident, $msg:ident, $hash:ident, $conv:ident) => {
        #[derive(Debug)]
        pub struct $sync { pub h: usize, pub ctx: Arc<Ctx> }
        #[derive(Debug)]
        pub struct $asyn { pub h: usize, pub ctx: Arc<Ctx> }
        impl $sync {
            fn result(out: Option<Out>) -> HandlerResult<$msg> {
                match out {
                    None => Err(HandlerError::GeneralError("not a request of this scenario".into())),
                    Some(o) => match o.k.as_str() {
                        "ok" => Ok(o.msg.$conv()),
                        "msg" => Err(HandlerError::MessageError(o.msg.$conv())),
                        "gen" => Err(HandlerError::GeneralError(o.text)),
                        _ => Err(HandlerError::InternalError(o.tchannel_error())),
                    },
                }
            }
        }
        impl RequestHandler for $sync {
            type REQ = $msg;
            type RES = $msg;
            fn handle(&mut self, request: $msg) -> HandlerResult<$msg> {
                let inv = self.ctx.start(self.h, $hash(&request));
                $sync::result(inv.end())
            }
        }
        impl RequestHandlerAsync for $asyn {
            type REQ = $msg;
            type RES = $msg;
            fn handle(&mut self, request: $msg) -> Pin<Box<dyn Future<Output = HandlerResult<$msg>> + Send + '_>> {
                Box::pin(async move {
                    let inv = self.ctx.start(self.h, $hash(&request));
                    drop(request);
                    if let Some(gate) = self.ctx.gates.get(&inv.r) {
                        if let Ok(p) = gate.acquire().await { p.forget() }
                    }
                    tokio::task::yield_now().await;
                    $sync::result(inv.end())
                })
            }
        }
    };
}
handler!(RawSync, RawAsync, RawMessage, hash_raw, raw);
handler!(JsonSync, JsonAsync, JsonMessage, hash_json, json);

/// Registers handler number `h` (from 1) given by {"ep", "json", "sync"}.
pub async fn register(sub: &SubChannel, h: usize, def: &Value, ctx: &Arc<Ctx>) -> TResult<()> {
    let ep = string_of(def.get("ep"));
    let ctx = ctx.clone();
    match (b(def, "json"), b(def, "sync")) {
        (false, false) => sub.register_async(ep, RawAsync { h, ctx }).await,
        (false, true) => sub.register(ep, RawSync { h, ctx }).await,
        (true, false) => sub.register_async(ep, JsonAsync { h, ctx }).await,
        (true, true) => sub.register(ep, JsonSync { h, ctx }).await,
    }
}
