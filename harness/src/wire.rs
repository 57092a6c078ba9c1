//! The protocol, encoded and decoded independently of the implementation under test.
use tokio::io::AsyncReadExt;

pub const INIT_REQ: u8 = 0x01;
pub const INIT_RES: u8 = 0x02;
pub const CALL_REQ: u8 = 0x03;
pub const CALL_RES: u8 = 0x04;
pub const CALL_REQ_CONT: u8 = 0x13;
pub const CALL_RES_CONT: u8 = 0x14;
pub const CANCEL: u8 = 0xc0;
pub const CLAIM: u8 = 0xc1;
pub const PING_REQ: u8 = 0xd0;
pub const PING_RES: u8 = 0xd1;
pub const ERROR: u8 = 0xff;

pub fn type_name(t: u8) -> &'static str {
    match t {
        INIT_REQ => "initreq",
        INIT_RES => "initres",
        CALL_REQ => "callreq",
        CALL_RES => "callres",
        CALL_REQ_CONT => "callreqcont",
        CALL_RES_CONT => "callrescont",
        CANCEL => "cancel",
        CLAIM => "claim",
        PING_REQ => "pingreq",
        PING_RES => "pingres",
        ERROR => "error",
        _ => "unknown",
    }
}

#[derive(Debug, Clone)]
pub struct Frame {
    pub ty: u8,
    pub id: u32,
    pub payload: Vec<u8>,
}

impl Frame {
    pub fn new(ty: u8, id: u32, payload: Vec<u8>) -> Frame { Frame { ty, id, payload } }
    pub fn len(&self) -> usize { self.payload.len() + 16 }
    pub fn encode(&self) -> Vec<u8> {
        assert!(self.len() <= 0xffff, "frame of {} bytes", self.len());
        let mut out = Vec::with_capacity(self.len());
        out.extend_from_slice(&(self.len() as u16).to_be_bytes());
        out.push(self.ty);
        out.push(0);
        out.extend_from_slice(&self.id.to_be_bytes());
        out.extend_from_slice(&[0; 8]);
        out.extend_from_slice(&self.payload);
        out
    }
}

pub enum Read {
    Frame(Frame),
    /// Orderly end between frames.
    Eof,
    /// End, reset, or garbage inside a frame.
    Broken(String),
}

pub async fn read_frame<R: AsyncReadExt + Unpin>(r: &mut R) -> Read {
    let mut head = [0u8; 16];
    let mut got = 0;
    while got < 16 {
        match r.read(&mut head[got..]).await {
            Ok(0) if got == 0 => return Read::Eof,
            Ok(0) => return Read::Broken(format!("end inside a frame header ({} bytes)", got)),
            Ok(n) => got += n,
            Err(e) => return Read::Broken(format!("{:?}", e.kind())),
        }
        if got >= 2 {
            let len = u16::from_be_bytes([head[0], head[1]]);
            if len < 16 { return Read::Broken(format!("frame length {}", len)); }
        }
    }
    let len = u16::from_be_bytes([head[0], head[1]]) as usize;
    let mut payload = vec![0u8; len - 16];
    if let Err(e) = r.read_exact(&mut payload).await {
        return Read::Broken(format!("end inside a frame: {:?}", e.kind()));
    }
    Read::Frame(Frame { ty: head[2], id: u32::from_be_bytes([head[4], head[5], head[6], head[7]]), payload })
}

/// Strict reader of a payload.
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n { return Err(format!("{} bytes missing", n - self.0.len())); }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, String> { Ok(self.take(1)?[0]) }
    pub fn u16(&mut self) -> Result<u16, String> { let b = self.take(2)?; Ok(u16::from_be_bytes([b[0], b[1]])) }
    pub fn u32(&mut self) -> Result<u32, String> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn str1(&mut self) -> Result<String, String> {
        let n = self.u8()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn str2(&mut self) -> Result<String, String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
}

#[derive(Debug, Default, Clone)]
pub struct Call {
    pub more: bool,
    pub code: u8,
    pub service: String,
    pub headers: Vec<(String, String)>,
    pub chunks: Vec<Vec<u8>>,
}
impl Call {
    pub fn header(&self, k: &str) -> &str {
        self.headers.iter().find(|(a, _)| a == k).map(|(_, b)| b.as_str()).unwrap_or("")
    }
}

fn flags(rd: &mut Rd) -> Result<bool, String> {
    match rd.u8()? {
        0 => Ok(false),
        1 => Ok(true),
        f => Err(format!("flags {}", f)),
    }
}

fn args(rd: &mut Rd) -> Result<Vec<Vec<u8>>, String> {
    match rd.u8()? {
        0 => (),
        c => return Err(format!("checksum type {}", c)),
    }
    let mut chunks = Vec::new();
    while !rd.0.is_empty() {
        let n = rd.u16()? as usize;
        chunks.push(rd.take(n)?.to_vec());
    }
    Ok(chunks)
}

fn headers1(rd: &mut Rd) -> Result<Vec<(String, String)>, String> {
    let n = rd.u8()?;
    let mut out = Vec::new();
    for _ in 0..n { out.push((rd.str1()?, rd.str1()?)); }
    Ok(out)
}

pub fn parse_call_req(p: &[u8]) -> Result<Call, String> {
    let mut rd = Rd(p);
    let more = flags(&mut rd)?;
    if rd.u32()? == 0 { return Err("ttl is 0".into()); }
    rd.take(25)?;
    let service = rd.str1()?;
    let headers = headers1(&mut rd)?;
    let chunks = args(&mut rd)?;
    Ok(Call { more, code: 0, service, headers, chunks })
}

pub fn parse_call_res(p: &[u8]) -> Result<Call, String> {
    let mut rd = Rd(p);
    let more = flags(&mut rd)?;
    let code = rd.u8()?;
    rd.take(25)?;
    let headers = headers1(&mut rd)?;
    let chunks = args(&mut rd)?;
    Ok(Call { more, code, service: String::new(), headers, chunks })
}

pub fn parse_cont(p: &[u8]) -> Result<Call, String> {
    let mut rd = Rd(p);
    let more = flags(&mut rd)?;
    let chunks = args(&mut rd)?;
    Ok(Call { more, chunks, ..Default::default() })
}

/// Version.
pub fn parse_init(p: &[u8]) -> Result<u16, String> {
    let mut rd = Rd(p);
    let v = rd.u16()?;
    let n = rd.u16()?;
    for _ in 0..n { rd.str2()?; rd.str2()?; }
    if !rd.0.is_empty() { return Err("trailing bytes".into()); }
    Ok(v)
}

/// Code and message.
pub fn parse_error(p: &[u8]) -> Result<(u8, String), String> {
    let mut rd = Rd(p);
    let code = rd.u8()?;
    rd.take(25)?;
    let msg = rd.str2()?;
    if !rd.0.is_empty() { return Err("trailing bytes".into()); }
    Ok((code, msg))
}

pub fn init_payload<T: AsRef<str>>(version: u16, headers: &[(T, T)]) -> Vec<u8> {
    let mut p = version.to_be_bytes().to_vec();
    p.extend_from_slice(&(headers.len() as u16).to_be_bytes());
    for (k, v) in headers {
        for x in [k.as_ref(), v.as_ref()] {
            p.extend_from_slice(&(x.len() as u16).to_be_bytes());
            p.extend_from_slice(x.as_bytes());
        }
    }
    p
}

/// Headers of a handshake: few as a rule, sometimes many, long, or empty.
pub fn init_headers(seed: u64) -> Vec<(String, String)> {
    let mut rng = crate::util::Rng::new(seed ^ 0x1417);
    let text = |n: u64, c: &str| c.repeat(n as usize);
    let mut h = vec![("host_port".to_string(), "0.0.0.0:0".to_string()), ("process_name".into(), "vh".into()), ("tchannel_language".into(), "x".into())];
    h.truncate(rng.below(4) as usize);
    match rng.below(8) {
        0 => (0..rng.below(300)).for_each(|i| h.push((format!("h{}", i), text(rng.below(30), "v")))),
        1 => h.push((text(rng.below(300), "k"), text(rng.below(60_000), "v"))),
        2 => h.push((String::new(), String::new())),
        3 => h.push(("ключ".into(), text(rng.below(90), "漢"))),
        _ => (),
    }
    h
}

pub fn error_payload(code: u8, msg: &str) -> Vec<u8> {
    let mut p = vec![code];
    p.extend_from_slice(&[0; 25]);
    p.extend_from_slice(&(msg.len() as u16).to_be_bytes());
    p.extend_from_slice(msg.as_bytes());
    p
}

/// What goes into a call frame, defects included (`d`).
pub struct CallSpec<'a> {
    pub req: bool,
    pub first: bool,
    pub more: bool,
    pub code: u8,
    pub service: &'a str,
    pub scheme: &'a str,
    pub extra_headers: usize,
    pub chunks: &'a [&'a [u8]],
    pub d: &'a str,
    pub seed: u64,
}

fn put1(p: &mut Vec<u8>, x: &[u8]) { p.push(x.len() as u8); p.extend_from_slice(x) }

pub fn call_payload(c: &CallSpec) -> Vec<u8> {
    let mut rng = crate::util::Rng::new(c.seed);
    let mut p = Vec::new();
    let mut marks = vec![0]; // where fields begin
    let mut f = c.more as u8;
    if c.d == "flags" { f |= 0x80 }
    p.push(f);
    if c.first {
        if c.req { p.extend_from_slice(&[60_000u32, 60_000, 1000, 0x7fff_ffff, 0x8000_0000, u32::MAX][rng.below(6) as usize].to_be_bytes()) } else {
            p.push(if c.d == "code" { 7 } else { c.code })
        }
        p.extend_from_slice(&rng.bytes(24));
        p.push(if c.d == "tflags" { 0xfe } else { (rng.next() & 1) as u8 });
        if c.req {
            marks.push(p.len());
            if c.d == "svcutf8" { put1(&mut p, &[0xff, 0xfe, b's']) } else { put1(&mut p, c.service.as_bytes()) }
        }
        let mut headers: Vec<(String, Vec<u8>)> = Vec::new();
        match c.d {
            "noas" => (),
            "as" => headers.push(("as".into(), b"zzz".to_vec())),
            "asutf8" => headers.push(("as".into(), vec![0xc3])),
            _ => headers.push(("as".into(), c.scheme.as_bytes().to_vec())),
        }
        for i in 0..c.extra_headers {
            headers.push((["cn", "re", "sk", "fd", "x-long-header-name"][i % 5].to_string() + &"y".repeat(i / 5), rng.bytes(3).iter().map(|b| b % 26 + 97).collect()));
        }
        // further headers of all kinds, if there is room
        let used: usize = p.len() + 60 + c.chunks.iter().map(|c| c.len() + 2).sum::<usize>() + headers.iter().map(|(k, v)| k.len() + v.len() + 2).sum::<usize>();
        if rng.below(6) == 0 && headers.len() < 250 && used + 2 * 512 < 0xffff - 16 {
            for (k, v) in [("", ""), ("AS", "json"), ("a", "raw"), ("asas", "as"), ("sk", "é漢"), ("long", ""), ("", "long")].into_iter().skip(rng.below(7) as usize).take(2) {
                let long = |x: &str| if x == "long" { "n".repeat([127usize, 128, 200, 255][(c.seed % 4) as usize]) } else { x.to_string() };
                headers.push((long(k), long(v).into_bytes()));
            }
        }
        if rng.next() & 1 == 1 { headers.reverse() }
        marks.extend([1, p.len() - 1, p.len()]);
        let rest: usize = 1 + c.chunks.iter().map(|c| c.len() + 2).sum::<usize>() + headers.iter().map(|(k, v)| k.len() + v.len() + 2).sum::<usize>();
        // more headers than there are, or a text of a length which exceeds the frame
        let way = if rest > 220 { 0 } else { rng.below(3) };
        if c.d == "nhover" && way == 0 { p.push(200) } else { p.push(headers.len() as u8) }
        for (k, v) in &headers {
            marks.push(p.len());
            put1(&mut p, k.as_bytes());
            marks.push(p.len());
            put1(&mut p, v);
        }
        if c.d == "nhover" && way == 1 { let n = marks[marks.len() - 1]; p[n] = 255 }
        if c.d == "nhover" && way == 2 { let n = marks[marks.len() - 2]; p[n] = 255 }
    }
    let before_args = p.len();
    match c.d {
        "csum" => { p.push([1u8, 2, 3][rng.below(3) as usize]); p.extend_from_slice(&rng.bytes(4)) }
        "csumbad" => p.push(0x55),
        _ => p.push(0),
    }
    for chunk in c.chunks {
        p.extend_from_slice(&(chunk.len() as u16).to_be_bytes());
        p.extend_from_slice(chunk);
    }
    match c.d {
        "lenover" => {
            // the last length is too long: slightly, or by far
            let over = [1u16, 1, 2, 3, 255, 0x4000][rng.below(6) as usize];
            match c.chunks.last() {
                Some(last) if c.chunks.len() == 3 || rng.below(2) == 0 => {
                    let at = p.len() - last.len() - 2;
                    let len = (last.len() as u16).saturating_add(over).max(last.len() as u16 + 1);
                    p[at..at + 2].copy_from_slice(&len.to_be_bytes());
                }
                _ => {
                    let n = rng.below(4) as usize;
                    let some = rng.bytes(n);
                    p.extend_from_slice(&(some.len() as u16 + over).to_be_bytes());
                    p.extend_from_slice(&some);
                }
            }
        }
        "half" => p.push(0),
        "args4" => {
            let n = rng.below(4) as usize;
            p.extend_from_slice(&(n as u16).to_be_bytes());
            p.extend_from_slice(&rng.bytes(n));
        }
        "trunc" if rng.below(2) == 0 => p.truncate(rng.below(before_args as u64) as usize),
        "trunc" => {
            marks.push(before_args);
            let mark = marks[rng.below(marks.len() as u64) as usize];
            p.truncate(mark + [0, 1][rng.below(2) as usize].min(before_args - mark))
        }
        "empty" => p.clear(),
        _ => (),
    }
    p
}
