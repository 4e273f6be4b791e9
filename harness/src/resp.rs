//! Strict RESP client.
use crate::util::*;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    Simple(Vec<u8>),
    Err(Vec<u8>),
    Int(i64),
    Bulk(Vec<u8>),
    Null,
    Arr(Vec<Reply>),
}

impl Reply {
    pub fn show(&self) -> String {
        match self {
            Reply::Simple(s) => format!("+{}", esc(s)),
            Reply::Err(s) => format!("-{}", esc(s)),
            Reply::Int(i) => format!(":{}", i),
            Reply::Bulk(s) => format!("\"{}\"", esc(s)),
            Reply::Null => "nil".into(),
            Reply::Arr(a) => {
                let v: Vec<_> = a.iter().take(60).map(Reply::show).collect();
                format!("[{}]", v.join(", "))
            }
        }
    }
    /// the text of a scalar value, whatever its representation
    pub fn text(&self) -> Option<Vec<u8>> {
        match self {
            Reply::Simple(s) | Reply::Bulk(s) => Some(s.clone()),
            Reply::Int(i) => Some(i.to_string().into_bytes()),
            _ => None,
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Reply::Err(_))
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            Reply::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Reply::Simple(s) if s == b"OK")
    }
}

/// what a request produced
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Reply(Reply),
    /// connection ended without (a complete) reply
    Closed,
    Timeout,
    /// bytes which are not a well-formed reply
    Garbage(Vec<u8>),
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Reply(r) => r.show(),
            Out::Closed => "<connection closed>".into(),
            Out::Timeout => "<no reply in time>".into(),
            Out::Garbage(g) => format!("<malformed reply {}>", esc(g)),
        }
    }
    pub fn reply(&self) -> Option<&Reply> {
        match self {
            Out::Reply(r) => Some(r),
            _ => None,
        }
    }
    /// refused: an error reply or a closed connection
    pub fn refused(&self) -> bool {
        matches!(self, Out::Closed) || matches!(self, Out::Reply(Reply::Err(_)))
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Reply(r) if r.is_ok())
    }
    pub fn int(&self) -> Option<i64> {
        self.reply().and_then(Reply::int)
    }
}

pub enum Parsed {
    Done(Reply, usize),
    More,
    Bad,
}

fn line(buf: &[u8], from: usize) -> Option<(usize, usize)> {
    let mut i = from;
    while i + 1 < buf.len() {
        if buf[i] == b'\r' && buf[i + 1] == b'\n' {
            return Some((i, i + 2));
        }
        i += 1;
    }
    None
}

fn strict_int(s: &[u8]) -> Option<i64> {
    let t = std::str::from_utf8(s).ok()?;
    let d = t.strip_prefix('-').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    t.parse().ok()
}

pub fn parse(buf: &[u8], at: usize) -> Parsed {
    if at >= buf.len() {
        return Parsed::More;
    }
    let (e, next) = match line(buf, at + 1) {
        Some(x) => x,
        None => {
            return if b"+-:$*".contains(&buf[at]) { Parsed::More } else { Parsed::Bad };
        }
    };
    let l = &buf[at + 1..e];
    if l.contains(&b'\n') || l.contains(&b'\r') {
        return Parsed::Bad;
    }
    match buf[at] {
        b'+' => Parsed::Done(Reply::Simple(l.to_vec()), next),
        b'-' => Parsed::Done(Reply::Err(l.to_vec()), next),
        b':' => strict_int(l).map_or(Parsed::Bad, |i| Parsed::Done(Reply::Int(i), next)),
        b'$' => match strict_int(l) {
            Some(-1) => Parsed::Done(Reply::Null, next),
            Some(n) if n >= 0 => {
                let n = n as usize;
                if buf.len() < next + n + 2 {
                    Parsed::More
                } else if &buf[next + n..next + n + 2] != b"\r\n" {
                    Parsed::Bad
                } else {
                    Parsed::Done(Reply::Bulk(buf[next..next + n].to_vec()), next + n + 2)
                }
            }
            _ => Parsed::Bad,
        },
        b'*' => match strict_int(l) {
            Some(-1) => Parsed::Done(Reply::Null, next),
            Some(n) if n >= 0 => {
                let mut v = Vec::new();
                let mut p = next;
                for _ in 0..n {
                    match parse(buf, p) {
                        Parsed::Done(r, q) => {
                            v.push(r);
                            p = q;
                        }
                        o => return o,
                    }
                }
                Parsed::Done(Reply::Arr(v), p)
            }
            _ => Parsed::Bad,
        },
        _ => Parsed::Bad,
    }
}

pub fn encode(cmd: &[Vec<u8>]) -> Vec<u8> {
    let mut o = format!("*{}\r\n", cmd.len()).into_bytes();
    for a in cmd {
        o.extend_from_slice(format!("${}\r\n", a.len()).as_bytes());
        o.extend_from_slice(a);
        o.extend_from_slice(b"\r\n");
    }
    o
}

/// the same request with some arguments as simple strings or integers, which mean the same; which ones depends on the arguments only
pub fn encode_mixed(cmd: &[Vec<u8>]) -> Vec<u8> {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut o = format!("*{}\r\n", cmd.len()).into_bytes();
    let name = cmd.first().map(|n| n.to_ascii_lowercase()).unwrap_or_default();
    for (i, a) in cmd.iter().enumerate() {
        for x in a.iter().chain(b"/") {
            h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
        let number = std::str::from_utf8(a).ok().and_then(|s| s.parse::<i64>().ok()).map_or(false, |n| n.to_string().as_bytes() == &a[..]);
        let numeric = i == 2 && [&b"set"[..], b"incrby", b"decrby", b"expire", b"pexpire", b"expireat", b"pexpireat"].contains(&&name[..]);
        match h >> 59 {
            0 | 1 if numeric && number => o.push(b':'),
            0 if !a.iter().any(|c| matches!(c, b'\r' | b'\n')) => o.push(b'+'),
            _ => o.extend_from_slice(format!("${}\r\n", a.len()).as_bytes()),
        }
        o.extend_from_slice(a);
        o.extend_from_slice(b"\r\n");
    }
    o
}

pub struct Client {
    pub stream: TcpStream,
    buf: Vec<u8>,
    pub timeout: Duration,
}

pub const TIMEOUT: Duration = Duration::from_secs(20);

impl Client {
    pub fn connect(addr: SocketAddr) -> std::io::Result<Client> {
        let stream = TcpStream::connect_timeout(&addr, Duration::from_secs(10))?;
        stream.set_nodelay(true)?;
        stream.set_write_timeout(Some(Duration::from_secs(30)))?;
        Ok(Client { stream, buf: Vec::new(), timeout: TIMEOUT })
    }
    pub fn send_raw(&mut self, data: &[u8]) -> std::io::Result<()> {
        self.stream.write_all(data)
    }
    pub fn recv(&mut self) -> Out {
        self.recv_within(self.timeout)
    }
    pub fn recv_within(&mut self, timeout: Duration) -> Out {
        let end = Instant::now() + timeout;
        let mut tmp = [0u8; 65536];
        // a large reply is only parsed again when it may be complete
        let mut want = 0;
        loop {
            if !self.buf.is_empty() && self.buf.len() >= want {
                match parse(&self.buf, 0) {
                    Parsed::Done(r, n) => {
                        self.buf.drain(..n);
                        return Out::Reply(r);
                    }
                    Parsed::Bad => return Out::Garbage(self.buf.clone()),
                    Parsed::More => {
                        if self.buf.len() > 1 << 20 {
                            want = self.buf.len() + self.buf.len() / 2;
                        }
                    }
                }
            }
            let now = Instant::now();
            if now >= end {
                return Out::Timeout;
            }
            let step = if want > self.buf.len() { Duration::from_millis(200) } else { end - now };
            let _ = self.stream.set_read_timeout(Some(step.min(end - now).max(Duration::from_millis(1))));
            // the server leaves Nagle's algorithm on: an acknowledgement delayed by us would stall it
            let _ = std::os::linux::net::TcpStreamExt::set_quickack(&self.stream, true);
            match self.stream.read(&mut tmp) {
                Ok(0) => {
                    want = 0;
                    if let Parsed::Done(r, n) = parse(&self.buf, 0) {
                        self.buf.drain(..n);
                        return Out::Reply(r);
                    }
                    return Out::Closed;
                }
                Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    want = 0;
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return Out::Closed,
            }
        }
    }
    pub fn cmd(&mut self, cmd: &[Vec<u8>]) -> Out {
        if self.send_raw(&encode(cmd)).is_err() {
            return Out::Closed;
        }
        self.recv()
    }
    pub fn c(&mut self, s: &str) -> Out {
        self.cmd(&words(s))
    }
    /// bytes received but not consumed
    pub fn leftover(&self) -> &[u8] {
        &self.buf
    }
    /// send many commands, collecting the replies; stops early if the connection ends
    pub fn pipeline(&mut self, cmds: &[Vec<Vec<u8>>]) -> Vec<Out> {
        let mut out = Vec::new();
        for chunk in cmds.chunks(64) {
            let mut data = Vec::new();
            for c in chunk {
                data.extend_from_slice(&encode(c));
            }
            if self.send_raw(&data).is_err() {
                out.push(Out::Closed);
                return out;
            }
            for _ in chunk {
                let o = self.recv();
                let stop = !matches!(o, Out::Reply(_));
                out.push(o);
                if stop {
                    return out;
                }
            }
        }
        out
    }
}
