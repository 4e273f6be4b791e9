//! Small helpers: PRNG, escaping, time, scratch directories.
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn fork(&self, tag: u64) -> Self {
        let mut r = Rng(self.0 ^ tag.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

/// printable form of bytes
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        if i > 120 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*c as char),
            c => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}

pub fn esc_cmd(cmd: &[Vec<u8>]) -> String {
    cmd.iter()
        .map(|a| {
            if a.is_empty() || a.iter().any(|c| *c <= b' ' || *c == b'"') {
                format!("\"{}\"", esc(a))
            } else {
                esc(a)
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static SCRATCH_N: AtomicU64 = AtomicU64::new(0);

/// a fresh directory below the scratch root of this run
pub fn scratch(root: &std::path::Path, tag: &str) -> PathBuf {
    let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
    let p = root.join(format!("{}-{}", tag, n));
    std::fs::create_dir_all(&p).expect("scratch dir");
    p
}

/// wait until `f` holds; false on timeout
pub fn wait_until<F: FnMut() -> bool>(timeout: Duration, mut f: F) -> bool {
    let end = Instant::now() + timeout;
    loop {
        if f() {
            return true;
        }
        if Instant::now() >= end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

pub fn b(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

/// split a command written with spaces
pub fn words(s: &str) -> Vec<Vec<u8>> {
    s.split(' ').filter(|w| !w.is_empty()).map(b).collect()
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in data {
        h ^= u64::from(*c);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// CRC16/XMODEM, bit by bit, as in the cluster specification
pub fn crc16(data: &[u8]) -> u16 {
    let mut crc: u16 = 0;
    for b in data {
        crc ^= u16::from(*b) << 8;
        for _ in 0..8 {
            crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0x1021 } else { crc << 1 };
        }
    }
    crc
}

/// the slot the cluster specification assigns to a key
pub fn key_slot(key: &[u8]) -> usize {
    if let Some(s) = key.iter().position(|c| *c == b'{') {
        if let Some(e) = key[s + 1..].iter().position(|c| *c == b'}') {
            if e > 0 {
                return (crc16(&key[s + 1..s + 1 + e]) % 16384) as usize;
            }
        }
    }
    (crc16(key) % 16384) as usize
}

/// run `f(0..n)` on n threads; a panic of one is raised again
pub fn par<T: Send, F: Fn(usize) -> T + Sync>(n: usize, f: F) -> Vec<T> {
    std::thread::scope(|s| {
        let f = &f;
        let hs: Vec<_> = (0..n).map(|i| s.spawn(move || f(i))).collect();
        let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        rs.into_iter()
            .map(|r| match r {
                Ok(t) => t,
                Err(e) => std::panic::resume_unwind(e),
            })
            .collect()
    })
}

static STALLS: std::sync::Mutex<Vec<(Instant, Duration)>> = std::sync::Mutex::new(Vec::new());

/// watches how late threads are woken on this machine
pub fn metronome() {
    std::thread::spawn(|| loop {
        let t = Instant::now();
        std::thread::sleep(Duration::from_millis(20));
        let late = t.elapsed().saturating_sub(Duration::from_millis(20));
        if late > Duration::from_millis(100) {
            STALLS.lock().unwrap().push((t, late));
        }
    });
}

/// the longest stall of the machine since then
pub fn stalled(since: Instant) -> Duration {
    STALLS.lock().unwrap().iter().filter(|(t, d)| *t + *d >= since).map(|(_, d)| *d).max().unwrap_or_default()
}
