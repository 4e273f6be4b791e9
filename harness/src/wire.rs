//! The binary formats of the snapshot, replication and placement driver protocols,
//! read and written independently of the code under test.
use crate::model::{Val, FAR, FAR_MIN};
use crate::resp::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Read;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::time::{Duration, Instant};

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub at: usize,
}

type R<T> = Result<T, String>;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, at: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.at {
            return Err(format!("ends at byte {} where {} more are needed", self.b.len(), n));
        }
        let r = &self.b[self.at..self.at + n];
        self.at += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(self.u64()? as i64)
    }
    pub fn f64(&mut self) -> R<f64> {
        Ok(f64::from_bits(self.u64()?))
    }
    pub fn bool(&mut self) -> R<bool> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            n => Err(format!("boolean {}", n)),
        }
    }
    pub fn len(&mut self) -> R<usize> {
        let n = self.u64()?;
        // every element takes at least one byte
        if n > (self.b.len() - self.at) as u64 {
            return Err(format!("length {} at byte {}", n, self.at));
        }
        Ok(n as usize)
    }
    pub fn bytes(&mut self) -> R<Vec<u8>> {
        let n = self.len()?;
        Ok(self.take(n)?.to_vec())
    }
    pub fn list(&mut self) -> R<Vec<Vec<u8>>> {
        let n = self.len()?;
        (0..n).map(|_| self.bytes()).collect()
    }
    fn score(&mut self) -> R<f64> {
        let f = self.f64()?;
        if f.is_nan() {
            return Err("NaN".into());
        }
        Ok(f)
    }
    fn scalar(&mut self) -> R<Vec<u8>> {
        match self.u32()? {
            1 | 2 => self.bytes(),
            3 => Ok(self.i64()?.to_string().into_bytes()),
            4 => Ok(format!("{}", self.score()?).into_bytes()),
            n => Err(format!("scalar of kind {}", n)),
        }
    }
    fn node(&mut self) -> R<(Vec<u8>, f64)> {
        let s = self.score()?;
        Ok((self.bytes()?, s))
    }
    /// a value; checks what every value of the server must satisfy
    pub fn data(&mut self) -> R<Val> {
        let at = self.at;
        match self.u32()? {
            1 | 2 => Ok(Val::Str(self.bytes()?)),
            3 => Ok(Val::Str(self.i64()?.to_string().into_bytes())),
            4 => Ok(Val::Str(format!("{}", self.score()?).into_bytes())),
            5 => {
                let n = self.len()?;
                let mut h = BTreeMap::new();
                for _ in 0..n {
                    let k = self.bytes()?;
                    h.insert(k, self.scalar()?);
                }
                if h.is_empty() {
                    return Err("empty hash".into());
                }
                Ok(Val::Hash(h))
            }
            6 => {
                let n = self.len()?;
                let mut l = VecDeque::new();
                for _ in 0..n {
                    l.push_back(self.scalar()?);
                }
                if l.is_empty() {
                    return Err("empty list".into());
                }
                Ok(Val::List(l))
            }
            7 => {
                let n = self.len()?;
                let mut s = BTreeSet::new();
                for _ in 0..n {
                    s.insert(self.bytes()?);
                }
                if s.is_empty() {
                    return Err("empty set".into());
                }
                Ok(Val::Set(s))
            }
            8 => {
                let n = self.len()?;
                let mut h = BTreeMap::new();
                for _ in 0..n {
                    let k = self.bytes()?;
                    let (m, s) = self.node()?;
                    if m != k {
                        return Err("sorted set: member under another name".into());
                    }
                    h.insert(k, s);
                }
                let n = self.len()?;
                let mut z: BTreeMap<Vec<u8>, f64> = BTreeMap::new();
                for _ in 0..n {
                    let (m, s) = self.node()?;
                    if let Some(o) = z.insert(m.clone(), s) {
                        if o != s {
                            return Err(format!("sorted set: member {} has two scores {} {}", esc(&m), o, s));
                        }
                    }
                }
                if h.is_empty() {
                    return Err("empty sorted set".into());
                }
                if h != z {
                    return Err(format!(
                        "sorted set: by member {:?}, by score {:?}",
                        h.iter().map(|(k, v)| (esc(k), *v)).collect::<Vec<_>>(),
                        z.iter().map(|(k, v)| (esc(k), *v)).collect::<Vec<_>>()
                    ));
                }
                Ok(Val::Zset(h))
            }
            n => Err(format!("value of kind {} at byte {}", n, at)),
        }
    }
    pub fn addr(&mut self) -> R<SocketAddr> {
        match self.u32()? {
            0 => {
                let ip: [u8; 4] = self.take(4)?.try_into().unwrap();
                Ok(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(ip)), self.u16()?))
            }
            1 => {
                let ip: [u8; 16] = self.take(16)?.try_into().unwrap();
                Ok(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(ip)), self.u16()?))
            }
            n => Err(format!("address of kind {}", n)),
        }
    }
    pub fn done(&self) -> bool {
        self.at == self.b.len()
    }
}

/// the value of a DUMP payload, if it is one
pub fn dump_val(b: &[u8]) -> R<Val> {
    Rd::new(b).data()
}

/// value and deadline of a DUMP reply
pub fn dump_full(b: &[u8]) -> R<(Val, u64)> {
    let mut r = Rd::new(b);
    let v = r.data()?;
    let e = r.u64()?;
    r.u64()?;
    if !r.done() {
        return Err("trailing bytes".into());
    }
    Ok((v, norm_exp(e)))
}

pub fn norm_exp(e: u64) -> u64 {
    if e >= FAR_MIN {
        FAR
    } else {
        e
    }
}

#[derive(Default)]
pub struct Wr(pub Vec<u8>);

impl Wr {
    pub fn u8(&mut self, n: u8) -> &mut Self {
        self.0.push(n);
        self
    }
    pub fn u16(&mut self, n: u16) -> &mut Self {
        self.0.extend_from_slice(&n.to_le_bytes());
        self
    }
    pub fn u32(&mut self, n: u32) -> &mut Self {
        self.0.extend_from_slice(&n.to_le_bytes());
        self
    }
    pub fn u64(&mut self, n: u64) -> &mut Self {
        self.0.extend_from_slice(&n.to_le_bytes());
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        self.u64(b.len() as u64);
        self.0.extend_from_slice(b);
        self
    }
    fn scalar(&mut self, b: &[u8]) -> &mut Self {
        self.u32(2).bytes(b)
    }
    /// a scalar as the server represents it after parsing
    fn canonical(&mut self, b: &[u8]) -> &mut Self {
        match crate::model::int(b) {
            Some(n) if n.to_string().as_bytes() == b => self.u32(3).u64(n as u64),
            _ => self.scalar(b),
        }
    }
    pub fn data(&mut self, v: &Val) -> &mut Self {
        match v {
            Val::Str(s) => {
                self.u32(2).bytes(s);
            }
            Val::Hash(h) => {
                self.u32(5).u64(h.len() as u64);
                for (k, v) in h {
                    self.bytes(k).scalar(v);
                }
            }
            Val::List(l) => {
                self.u32(6).u64(l.len() as u64);
                for v in l {
                    self.scalar(v);
                }
            }
            Val::Set(s) => {
                self.u32(7).u64(s.len() as u64);
                for v in s {
                    self.bytes(v);
                }
            }
            Val::Zset(z) => {
                self.u32(8).u64(z.len() as u64);
                for (m, s) in z {
                    self.bytes(m).u64(s.to_bits()).bytes(m);
                }
                let o = crate::model::zorder(z);
                self.u64(o.len() as u64);
                for (m, s) in o {
                    self.u64(s.to_bits()).bytes(&m);
                }
            }
        }
        self
    }
    pub fn addr(&mut self, a: SocketAddr) -> &mut Self {
        match a.ip() {
            IpAddr::V4(ip) => {
                self.u32(0);
                self.0.extend_from_slice(&ip.octets());
            }
            IpAddr::V6(ip) => {
                self.u32(1);
                self.0.extend_from_slice(&ip.octets());
            }
        }
        self.u16(a.port())
    }
}

/// the payload DUMP gives for a value
pub fn payload(v: &Val) -> Vec<u8> {
    let mut w = Wr::default();
    w.data(v).u64(0).u64(0);
    w.0
}

// ---- snapshots

pub type SlotData = BTreeMap<Vec<u8>, (Val, u64)>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct SlotSnap {
    pub write_id: u64,
    pub data: SlotData,
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub slots: BTreeMap<usize, SlotSnap>,
    pub bytes: usize,
}

impl Snap {
    pub fn get(&self, key: &[u8]) -> Option<&(Val, u64)> {
        self.slots.get(&key_slot(key)).and_then(|s| s.data.get(key))
    }
    pub fn keys(&self) -> usize {
        self.slots.values().map(|s| s.data.len()).sum()
    }
    pub fn all(&self) -> SlotData {
        self.slots.values().flat_map(|s| s.data.iter().map(|(k, v)| (k.clone(), v.clone()))).collect()
    }
}

pub fn decode_snapshot(b: &[u8]) -> R<Snap> {
    let mut r = Rd::new(b);
    let mut s = Snap { bytes: b.len(), ..Default::default() };
    loop {
        if r.u8()? == 0 {
            break;
        }
        let id = r.u16()? as usize;
        let write_id = r.u64()?;
        let n = r.len()?;
        let mut data = SlotData::new();
        for _ in 0..n {
            let k = r.bytes()?;
            let v = r.data().map_err(|e| format!("slot {} key {}: {}", id, esc(&k), e))?;
            let e = norm_exp(r.u64()?);
            r.u64()?;
            if data.insert(k.clone(), (v, e)).is_some() {
                return Err(format!("slot {}: key {} twice", id, esc(&k)));
            }
        }
        if s.slots.insert(id, SlotSnap { write_id, data }).is_some() {
            return Err(format!("slot {} twice", id));
        }
    }
    if !r.done() {
        return Err(format!("{} bytes after the end", b.len() - r.at));
    }
    Ok(s)
}

pub fn encode_snapshot(slots: &[(usize, &SlotSnap)], end: bool) -> Vec<u8> {
    let mut w = Wr::default();
    for (id, s) in slots {
        w.u8(1).u16(*id as u16).u64(s.write_id).u64(s.data.len() as u64);
        for (k, (v, e)) in &s.data {
            w.bytes(k).data(v).u64(*e).u64(0);
        }
    }
    if end {
        w.u8(0);
    }
    w.0
}

pub const ALL: usize = 16384;

/// the bytes of a snapshot; Err when the transfer makes no progress
pub fn snapshot_bytes(addr: SocketAddr, slot: usize, idle: Duration) -> R<Vec<u8>> {
    let mut c = Client::connect(addr).map_err(|e| e.to_string())?;
    c.send_raw(&encode(&[b("syncsnapshot"), slot.to_string().into_bytes()])).map_err(|e| e.to_string())?;
    read_all(&mut c.stream, idle)
}

pub fn read_all(s: &mut std::net::TcpStream, idle: Duration) -> R<Vec<u8>> {
    let mut v = Vec::new();
    let mut tmp = vec![0u8; 1 << 16];
    let mut last = Instant::now();
    let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
    loop {
        match s.read(&mut tmp) {
            Ok(0) => return Ok(v),
            Ok(n) => {
                v.extend_from_slice(&tmp[..n]);
                last = Instant::now();
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                if last.elapsed() > idle {
                    return Err(format!("no progress for {:?} after {} bytes", idle, v.len()));
                }
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(format!("{} after {} bytes", e, v.len())),
        }
    }
}

pub fn snapshot(addr: SocketAddr, slot: usize) -> R<Snap> {
    let v = snapshot_bytes(addr, slot, Duration::from_secs(20))?;
    decode_snapshot(&v)
}

// ---- replication messages

#[derive(Clone, Debug, PartialEq)]
pub enum WCmd {
    /// the client command with the same effect
    Cmd(Vec<Vec<u8>>),
    /// a whole value (key, value, deadline, only if absent)
    Put(Vec<u8>, Val, u64, bool),
    Flush,
    None,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub id: u64,
    pub slot: usize,
    pub cmd: WCmd,
}

impl Msg {
    pub fn show(&self) -> String {
        let c = match &self.cmd {
            WCmd::Cmd(c) => esc_cmd(c),
            WCmd::Put(k, v, e, nx) => format!("put {} {} deadline {} nx {}", esc(k), v.show(), e, nx),
            WCmd::Flush => "flush".into(),
            WCmd::None => "none".into(),
        };
        format!("#{} slot {} {}", self.id, self.slot, c)
    }
    pub fn key(&self) -> Option<Vec<u8>> {
        match &self.cmd {
            WCmd::Cmd(c) => c.get(1).cloned(),
            WCmd::Put(k, ..) => Some(k.clone()),
            _ => None,
        }
    }
}

fn bound_score(r: &mut Rd, min: bool) -> R<Vec<u8>> {
    Ok(match r.u32()? {
        0 => b(if min { "-inf" } else { "+inf" }),
        1 => format!("{}", r.f64()?).into_bytes(),
        2 => format!("({}", r.f64()?).into_bytes(),
        n => return Err(format!("bound {}", n)),
    })
}

fn bound_lex(r: &mut Rd, min: bool) -> R<Vec<u8>> {
    Ok(match r.u32()? {
        0 => b(if min { "-" } else { "+" }),
        1 => [b("["), r.bytes()?].concat(),
        2 => [b("("), r.bytes()?].concat(),
        n => return Err(format!("bound {}", n)),
    })
}

fn nxxx(r: &mut Rd, c: &mut Vec<Vec<u8>>) -> R<u32> {
    let n = r.u32()?;
    match n {
        0 => c.push(b("nx")),
        1 => c.push(b("xx")),
        2 => (),
        n => return Err(format!("condition {}", n)),
    }
    Ok(n)
}

/// one message of the replication stream
pub fn decode_msg(r: &mut Rd) -> R<Msg> {
    let id = r.u64()?;
    let slot = r.u64()? as usize;
    let kind = r.u32()?;
    let d = |n: i64| n.to_string().into_bytes();
    let cmd = match kind {
        0 => WCmd::Cmd(vec![b("del"), r.bytes()?]),
        1 => {
            let mut c = vec![b("pexpireat"), r.bytes()?];
            c.push(r.u64()?.min(i64::MAX as u64).to_string().into_bytes());
            nxxx(r, &mut c)?;
            match r.u32()? {
                0 => c.push(b("gt")),
                1 => c.push(b("lt")),
                2 => (),
                n => return Err(format!("comparison {}", n)),
            }
            WCmd::Cmd(c)
        }
        2 => {
            let k = r.bytes()?;
            WCmd::Cmd(vec![b("incrby"), k, d(r.i64()?)])
        }
        3 | 18 => {
            let key = r.bytes()?;
            let val = r.data()?;
            let (exp, last) = match r.u32()? {
                0 => (r.u64()?, false),
                1 => (0, true),
                n => return Err(format!("deadline {}", n)),
            };
            let mut opts = vec![];
            let nx = nxxx(r, &mut opts)?;
            match val {
                Val::Str(s) => {
                    let mut c = vec![b("set"), key, s];
                    if last {
                        c.push(b("keepttl"));
                    } else if exp > 0 {
                        c.push(b("pxat"));
                        c.push(exp.min(i64::MAX as u64).to_string().into_bytes());
                    }
                    c.extend(opts);
                    if kind == 18 {
                        c.push(b("get"));
                    }
                    WCmd::Cmd(c)
                }
                v => WCmd::Put(key, v, norm_exp(exp), nx == 0),
            }
        }
        4 => {
            let k = r.bytes()?;
            WCmd::Cmd([vec![b("hdel"), k], r.list()?].concat())
        }
        5 => {
            let k = r.bytes()?;
            let f = r.bytes()?;
            WCmd::Cmd(vec![b("hincrby"), k, f, d(r.i64()?)])
        }
        6 => {
            let mut c = vec![b("hset"), r.bytes()?];
            let n = r.len()?;
            for _ in 0..n {
                c.push(r.bytes()?);
                c.push(r.scalar()?);
            }
            match r.u32()? {
                0 => c[0] = b("hsetnx"),
                2 => (),
                n => return Err(format!("condition {}", n)),
            }
            WCmd::Cmd(c)
        }
        7 => {
            let k = r.bytes()?;
            let n = r.u64()?;
            let left = r.bool()?;
            WCmd::Cmd(vec![b(if left { "lpop" } else { "rpop" }), k, n.to_string().into_bytes()])
        }
        8 => {
            let mut c = vec![vec![], r.bytes()?];
            let n = r.len()?;
            for _ in 0..n {
                c.push(r.scalar()?);
            }
            let left = r.bool()?;
            let x = match r.u32()? {
                1 => true,
                2 => false,
                n => return Err(format!("condition {}", n)),
            };
            c[0] = b(match (left, x) {
                (true, false) => "lpush",
                (true, true) => "lpushx",
                (false, false) => "rpush",
                (false, true) => "rpushx",
            });
            WCmd::Cmd(c)
        }
        9 => {
            let k = r.bytes()?;
            WCmd::Cmd([vec![b("sadd"), k], r.list()?].concat())
        }
        10 => {
            let k = r.bytes()?;
            WCmd::Cmd([vec![b("srem"), k], r.list()?].concat())
        }
        11 => {
            let mut c = vec![b("zadd"), r.bytes()?];
            let n = r.len()?;
            let mut nodes = vec![];
            for _ in 0..n {
                let s = r.f64()?;
                nodes.push(format!("{}", s).into_bytes());
                nodes.push(r.bytes()?);
            }
            nxxx(r, &mut c)?;
            match r.u32()? {
                0 => c.push(b("gt")),
                1 => c.push(b("lt")),
                2 => (),
                n => return Err(format!("comparison {}", n)),
            }
            if r.bool()? {
                c.push(b("incr"));
            }
            c.extend(nodes);
            WCmd::Cmd(c)
        }
        12 => {
            let k = r.bytes()?;
            WCmd::Cmd([vec![b("zrem"), k], r.list()?].concat())
        }
        13 => {
            let c = vec![b("zremrangebyrank"), r.bytes()?, d(r.i64()?), d(r.i64()?)];
            if r.bool()? {
                return Err("reversed rank removal".into());
            }
            WCmd::Cmd(c)
        }
        14 => {
            let c = vec![b("zremrangebyscore"), r.bytes()?, bound_score(r, true)?, bound_score(r, false)?];
            r.bool()?;
            WCmd::Cmd(c)
        }
        15 => {
            let c = vec![b("zremrangebylex"), r.bytes()?, bound_lex(r, true)?, bound_lex(r, false)?];
            r.bool()?;
            WCmd::Cmd(c)
        }
        16 => WCmd::None,
        17 => WCmd::Flush,
        n => return Err(format!("command kind {}", n)),
    };
    if slot > ALL {
        return Err(format!("slot {}", slot));
    }
    Ok(Msg { id, slot, cmd })
}

fn float(x: &[u8]) -> f64 {
    String::from_utf8_lossy(x).parse().unwrap()
}

fn enc_nxxx(o: &[Vec<u8>]) -> u32 {
    o.iter().find_map(|o| match &o[..] {
        b"nx" => Some(0),
        b"xx" => Some(1),
        _ => None,
    })
    .unwrap_or(2)
}

fn enc_gtlt(o: &[Vec<u8>]) -> u32 {
    o.iter().find_map(|o| match &o[..] {
        b"gt" => Some(0),
        b"lt" => Some(1),
        _ => None,
    })
    .unwrap_or(2)
}

/// what a leader sends for the command
pub fn encode_msg(m: &Msg) -> Vec<u8> {
    let mut w = Wr::default();
    w.u64(m.id).u64(m.slot as u64);
    match &m.cmd {
        WCmd::None => {
            w.u32(16);
        }
        WCmd::Flush => {
            w.u32(17);
        }
        WCmd::Put(k, v, e, nx) => {
            w.u32(3).bytes(k).data(v).u32(0).u64(*e).u32(if *nx { 0 } else { 2 });
        }
        WCmd::Cmd(c) => {
            let name = String::from_utf8(c[0].clone()).unwrap();
            let num = |i: usize| -> i64 { String::from_utf8(c[i].clone()).unwrap().parse().unwrap() };
            match name.as_str() {
                "del" => {
                    w.u32(0).bytes(&c[1]);
                }
                "pexpireat" => {
                    w.u32(1).bytes(&c[1]).u64(num(2) as u64).u32(enc_nxxx(&c[3..])).u32(enc_gtlt(&c[3..]));
                }
                "incrby" => {
                    w.u32(2).bytes(&c[1]).u64(num(2) as u64);
                }
                "set" => {
                    let has = |n: &str| c[3..].iter().any(|o| o == n.as_bytes());
                    w.u32(if has("get") { 18 } else { 3 }).bytes(&c[1]).canonical(&c[2]);
                    if has("keepttl") {
                        w.u32(1);
                    } else {
                        let exp = c[3..].iter().position(|o| o == b"pxat").map_or(0, |i| num(3 + i + 1) as u64);
                        w.u32(0).u64(exp);
                    }
                    w.u32(enc_nxxx(&c[3..]));
                }
                "hdel" | "sadd" | "srem" | "zrem" => {
                    w.u32(match name.as_str() {
                        "hdel" => 4,
                        "sadd" => 9,
                        "srem" => 10,
                        _ => 12,
                    });
                    w.bytes(&c[1]).u64(c.len() as u64 - 2);
                    for m in &c[2..] {
                        w.bytes(m);
                    }
                }
                "hincrby" => {
                    w.u32(5).bytes(&c[1]).bytes(&c[2]).u64(num(3) as u64);
                }
                "hset" | "hsetnx" => {
                    w.u32(6).bytes(&c[1]).u64((c.len() as u64 - 2) / 2);
                    for p in c[2..].chunks(2) {
                        w.bytes(&p[0]).canonical(&p[1]);
                    }
                    w.u32(if name == "hset" { 2 } else { 0 });
                }
                "lpop" | "rpop" => {
                    w.u32(7).bytes(&c[1]).u64(num(2) as u64).u8(u8::from(name == "lpop"));
                }
                "lpush" | "rpush" | "lpushx" | "rpushx" => {
                    w.u32(8).bytes(&c[1]).u64(c.len() as u64 - 2);
                    for v in &c[2..] {
                        w.canonical(v);
                    }
                    w.u8(u8::from(name.starts_with('l'))).u32(if name.ends_with('x') { 1 } else { 2 });
                }
                "zadd" => {
                    let at = 2 + c[2..].iter().take_while(|o| [&b"nx"[..], b"xx", b"gt", b"lt", b"incr"].contains(&&o[..])).count();
                    let opts = &c[2..at];
                    w.u32(11).bytes(&c[1]).u64((c.len() - at) as u64 / 2);
                    for p in c[at..].chunks(2) {
                        w.u64(float(&p[0]).to_bits()).bytes(&p[1]);
                    }
                    w.u32(enc_nxxx(opts)).u32(enc_gtlt(opts)).u8(u8::from(opts.iter().any(|o| o == b"incr")));
                }
                "zremrangebyrank" => {
                    w.u32(13).bytes(&c[1]).u64(num(2) as u64).u64(num(3) as u64).u8(0);
                }
                "zremrangebyscore" => {
                    w.u32(14).bytes(&c[1]);
                    for x in &c[2..4] {
                        match &x[..] {
                            b"-inf" | b"+inf" => w.u32(0),
                            [b'(', x @ ..] => w.u32(2).u64(float(x).to_bits()),
                            x => w.u32(1).u64(float(x).to_bits()),
                        };
                    }
                    w.u8(0);
                }
                "zremrangebylex" => {
                    w.u32(15).bytes(&c[1]);
                    for x in &c[2..4] {
                        match &x[..] {
                            b"-" | b"+" => w.u32(0),
                            [b'[', x @ ..] => w.u32(1).bytes(x),
                            x => w.u32(2).bytes(&x[1..]),
                        };
                    }
                    w.u8(0);
                }
                n => panic!("encode_msg {}", n),
            }
        }
    }
    w.0
}

pub const SYNC_CMD: &[u8] = b"*1\r\n$7\r\nsynccmd\r\n";
pub const SYNC_PING: &[u8] = b"*1\r\n$11\r\nsynccmdping\r\n";

/// a subscriber of the replication stream
pub struct Sub {
    pub stream: std::net::TcpStream,
    buf: Vec<u8>,
    at: usize,
    pub bytes: u64,
}

impl Sub {
    /// connects and waits for the confirmation; messages which come before it are returned too
    pub fn connect(fwd: SocketAddr, timeout: Duration) -> R<(Sub, Vec<Msg>)> {
        let stream = std::net::TcpStream::connect_timeout(&fwd, timeout).map_err(|e| e.to_string())?;
        let _ = stream.set_nodelay(true);
        let mut s = Sub { stream, buf: vec![], at: 0, bytes: 0 };
        s.ping_with(SYNC_CMD)?;
        let end = Instant::now() + timeout;
        let mut early = vec![];
        loop {
            match s.next(end.saturating_duration_since(Instant::now()))? {
                Some(m) if m.cmd == WCmd::None && m.id == 0 => return Ok((s, early)),
                Some(m) => early.push(m),
                None => return Err("the subscription is not confirmed".into()),
            }
        }
    }
    pub fn ping_with(&mut self, what: &[u8]) -> R<()> {
        use std::io::Write;
        self.stream.write_all(what).map_err(|e| e.to_string())
    }
    fn decode(&mut self) -> R<Msg> {
        let mut r = Rd { b: &self.buf, at: self.at };
        let m = decode_msg(&mut r)?;
        self.at = r.at;
        if self.at > 1 << 20 {
            self.buf.drain(..self.at);
            self.at = 0;
        }
        Ok(m)
    }
    /// the next message; None if none comes in time
    pub fn next(&mut self, timeout: Duration) -> R<Option<Msg>> {
        let end = Instant::now() + timeout;
        let mut tmp = [0u8; 1 << 16];
        loop {
            let err = if self.at < self.buf.len() {
                match self.decode() {
                    Ok(m) => return Ok(Some(m)),
                    Err(e) => Some(e),
                }
            } else {
                self.buf.clear();
                self.at = 0;
                None
            };
            let left = end.saturating_duration_since(Instant::now()).max(Duration::from_millis(1));
            let _ = self.stream.set_read_timeout(Some(left));
            match self.stream.read(&mut tmp) {
                Ok(0) => return Err(format!("the stream ended, {} bytes left over", self.buf.len() - self.at)),
                Ok(n) => {
                    self.bytes += n as u64;
                    self.buf.extend_from_slice(&tmp[..n]);
                }
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    return match err {
                        None => Ok(None),
                        Some(e) => Err(format!("undecodable message ({}): {}", e, esc(&self.buf[self.at..]))),
                    };
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.to_string()),
            }
        }
    }
    /// all messages up to and including the answer to a ping sent now
    pub fn drain(&mut self, timeout: Duration) -> R<Vec<Msg>> {
        let mut v = vec![];
        self.ping_with(SYNC_PING)?;
        loop {
            match self.next(timeout)? {
                Some(m) if m.cmd == WCmd::None && m.id == 0 => return Ok(v),
                Some(m) => v.push(m),
                None => return Err("a ping of a subscriber is not answered".into()),
            }
        }
    }
    /// reads on until the number of every slot is at least the one of the snapshot, and a little longer;
    /// gives up when nothing comes for `idle`
    pub fn drain_to(&mut self, msgs: &mut Vec<Msg>, target: &Snap, idle: Duration) -> R<()> {
        let mut at: BTreeMap<usize, u64> = BTreeMap::new();
        for m in msgs.iter() {
            at.insert(m.slot, m.id);
        }
        let mut open = target.slots.iter().filter(|(s, d)| d.write_id > at.get(s).copied().unwrap_or(0)).count();
        // slots without any message may have been complete before the subscription
        let mut last = Instant::now();
        self.ping_with(SYNC_PING)?;
        loop {
            match self.next(if open == 0 { Duration::from_millis(40) } else { Duration::from_millis(100) })? {
                Some(m) if m.cmd == WCmd::None && m.id == 0 => (),
                Some(m) => {
                    last = Instant::now();
                    let w = target.slots.get(&m.slot).map_or(0, |d| d.write_id);
                    if m.id == w {
                        open = open.saturating_sub(1);
                    }
                    msgs.push(m);
                }
                None if open == 0 || last.elapsed() > idle => return Ok(()),
                None => (),
            }
        }
    }
}

/// the effect of a message on a slot, by the reference model
pub fn apply_msg(model: &mut crate::model::Model, m: &Msg, now: u64) {
    match &m.cmd {
        WCmd::None => (),
        WCmd::Flush => model.map.retain(|k, _| key_slot(k) != m.slot),
        WCmd::Put(k, v, e, nx) => {
            if !(*nx && model.live(k, now).is_some()) {
                model.map.insert(k.clone(), crate::model::Entry { val: v.clone(), exp: *e });
            }
        }
        WCmd::Cmd(c) => {
            model.apply(c, now, None);
        }
    }
}
