//! Log of a scenario, seeded contents, small helpers.
use serde_json::{json, Map, Value};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A wait longer than this is reported as stuck.
pub const PATIENCE: Duration = Duration::from_secs(20);
/// After that many stuck scenarios no more are started.
pub const MAX_STUCK: usize = 6;
/// More events than any scenario causes, unless something goes on for ever.
pub const MAX_EVENTS: u64 = 6000;
pub static STUCK: AtomicUsize = AtomicUsize::new(0);
pub static PORT: u16 = 7117;

pub struct Log {
    events: Mutex<Vec<String>>,
    closed: AtomicBool,
    pub n: AtomicU64,
}

impl Log {
    pub fn new() -> Arc<Log> {
        Arc::new(Log { events: Mutex::new(Vec::new()), closed: AtomicBool::new(false), n: AtomicU64::new(0) })
    }
    pub fn ev(&self, v: Value) {
        self.with(|| ((), v))
    }
    /// Runs `f` and logs its result as one step.
    pub fn with<T>(&self, f: impl FnOnce() -> (T, Value)) -> T {
        let mut events = match self.events.lock() { Ok(e) => e, Err(p) => p.into_inner() };
        let (t, v) = f();
        if !self.closed.load(Ordering::Acquire) {
            if self.n.fetch_add(1, Ordering::Relaxed) < MAX_EVENTS { events.push(v.to_string()) }
        }
        t
    }
    /// Nothing is recorded any more.
    pub fn close(&self) { self.closed.store(true, Ordering::Release) }
    pub fn flooded(&self) -> bool { self.n.load(Ordering::Relaxed) >= MAX_EVENTS }
    pub fn take(&self) -> Vec<String> {
        let mut events = match self.events.lock() { Ok(e) => e, Err(p) => p.into_inner() };
        self.closed.store(true, Ordering::Release);
        std::mem::take(&mut *events)
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed ^ 0x9e37_79b9_7f4a_7c15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n { out.extend_from_slice(&self.next().to_le_bytes()); }
        out.truncate(n);
        out
    }
}

/// Text of exactly `len` bytes, with characters of 1 to 4 bytes.
pub fn text(seed: u64, len: usize) -> String {
    const ALPHA: [&str; 14] = ["a", "Z", "0", " ", "é", "ß", "Ω", "漢", "€", "😀", "\n", "/", "\u{7f}", "\u{0}"];
    let mut rng = Rng::new(seed);
    let mut s = String::with_capacity(len);
    while s.len() < len {
        let c = ALPHA[rng.below(ALPHA.len() as u64) as usize];
        if s.len() + c.len() <= len { s.push_str(c) } else { s.push('x') }
    }
    s
}

pub fn blob(seed: u64, len: usize) -> Vec<u8> { Rng::new(seed.wrapping_mul(31).wrapping_add(7)).bytes(len) }

/// JSON object. Serialized compactly it is exactly `len` bytes long for len = 2 or len >= 8
/// (other lengths are rounded up).
pub fn object(seed: u64, len: usize) -> Map<String, Value> {
    let mut m = Map::new();
    if len <= 2 { return m; }
    let mut rng = Rng::new(seed.wrapping_add(99));
    if len >= 200 {
        m.insert("n".into(), json!(rng.next() as i64));
        m.insert("u".into(), json!(rng.next()));
        m.insert("f".into(), json!((rng.below(1000) as f64) / 8.0));
        m.insert("a".into(), json!([1, null, true, "\"\\\n\u{1}é😀", {"x": [], "y": {}}, -5]));
        m.insert("".into(), json!(""));
    }
    m.insert("k".into(), json!(""));
    let base = Value::Object(m.clone()).to_string().len();
    let pad = len.saturating_sub(base);
    let mut s = String::new();
    while s.len() < pad {
        let c = ["a", "b", "é", "漢", "7"][rng.below(5) as usize];
        if s.len() + c.len() <= pad { s.push_str(c) } else { s.push('x') }
    }
    m.insert("k".into(), Value::String(s));
    m
}

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut eat = |b: u8| { h ^= b as u64; h = h.wrapping_mul(0x0000_0100_0000_01b3) };
    for p in parts {
        for b in (p.len() as u64).to_le_bytes() { eat(b) }
        for b in p.iter() { eat(*b) }
    }
    h
}

pub fn u(v: &Value, k: &str) -> usize { v.get(k).and_then(Value::as_u64).unwrap_or(0) as usize }
pub fn un(v: &Value, k: &str, d: usize) -> usize { v.get(k).and_then(Value::as_u64).map(|x| x as usize).unwrap_or(d) }
pub fn b(v: &Value, k: &str) -> bool { v.get(k).and_then(Value::as_bool).unwrap_or(false) }
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str { v.get(k).and_then(Value::as_str).unwrap_or("") }
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] { v.get(k).and_then(Value::as_array).map(|a| a.as_slice()).unwrap_or(&[]) }
pub fn id_of(v: &Value, k: &str) -> u32 {
    match v.get(k) {
        Some(Value::String(s)) => s.parse::<u64>().unwrap_or(0) as u32,
        Some(Value::Number(n)) => n.as_u64().unwrap_or(0) as u32,
        _ => 0,
    }
}
/// A string: given literally, or as {"len", "seed"}.
pub fn string_of(v: Option<&Value>) -> String {
    match v {
        Some(Value::String(s)) => s.clone(),
        Some(o @ Value::Object(_)) => text(u(o, "seed") as u64, u(o, "len")),
        _ => String::new(),
    }
}

/// Waits until `f` holds. False when it took longer than a user would wait.
pub async fn wait_until(mut f: impl FnMut() -> bool) -> bool { wait_until_for(PATIENCE, &mut f).await }

pub async fn wait_until_for(patience: Duration, f: &mut impl FnMut() -> bool) -> bool {
    let start = Instant::now();
    let mut spins = 0u32;
    loop {
        if f() { return true; }
        if start.elapsed() > patience { return f(); }
        if spins < 200 { spins += 1; tokio::task::yield_now().await } else {
            tokio::time::sleep(Duration::from_millis(1)).await
        }
    }
}

pub async fn yields(n: usize) { for _ in 0..n { tokio::task::yield_now().await } }

/// Polls `f` in a task that is busy with other things: `n` operations which are ready each time.
pub async fn busy<T>(n: usize, f: impl std::future::Future<Output = T>) -> T {
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<()>();
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| {
        for _ in 0..n {
            let _ = tx.send(());
            if rx.poll_recv(cx).is_pending() { break; }
        }
        f.as_mut().poll(cx)
    }).await
}
