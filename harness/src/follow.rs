//! A real follower, driven by a scripted leader and a scripted placement driver (C19).
//!
//! The scripted leader keeps the state of every slot after every number. It sends its stream with
//! losses, repeats, late messages, fragments and broken connections, answers snapshot requests well or
//! badly, and the monitor polls the follower's physical content: whatever it shows under number n of a
//! slot must be the leader's state after number n.
use crate::ctx::*;
use crate::model::*;
use crate::net::reset_on_close;
use crate::pdp::{Info, Status};
use crate::repl::{data_of, diff};
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire::{self, Msg, Rd, Snap, SlotData, SlotSnap, WCmd};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Cmd = Vec<Vec<u8>>;

pub fn listen() -> (TcpListener, SocketAddr) {
    let l = TcpListener::bind(("127.0.0.1", 0)).expect("listen");
    let a = l.local_addr().expect("listen");
    (l, a)
}

/// reads one request; None at the end
pub fn request(s: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Reply> {
    let mut tmp = [0u8; 4096];
    loop {
        if let Parsed::Done(r, n) = parse(buf, 0) {
            buf.drain(..n);
            return Some(r);
        }
        match s.read(&mut tmp) {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
        }
    }
}

// ---- placement driver

pub struct FakePd {
    pub addr: SocketAddr,
    pub desired: Arc<Mutex<Status>>,
    pub reported: Arc<Mutex<Option<Status>>>,
    pub me: Arc<Mutex<Option<Info>>>,
    quit: Arc<AtomicBool>,
}

impl FakePd {
    pub fn start(st: Status) -> FakePd {
        let (l, addr) = listen();
        let p = FakePd {
            addr,
            desired: Arc::new(Mutex::new(st)),
            reported: Arc::default(),
            me: Arc::default(),
            quit: Arc::default(),
        };
        let (desired, reported, me, quit) = (p.desired.clone(), p.reported.clone(), p.me.clone(), p.quit.clone());
        std::thread::spawn(move || {
            for s in l.incoming() {
                if quit.load(Ordering::SeqCst) {
                    return;
                }
                let Ok(mut s) = s else { continue };
                let (desired, reported, me) = (desired.clone(), reported.clone(), me.clone());
                std::thread::spawn(move || {
                    let _ = s.set_nodelay(true);
                    let mut buf = vec![];
                    while let Some(Reply::Arr(a)) = request(&mut s, &mut buf) {
                        let (Some(Reply::Bulk(name)), Some(Reply::Bulk(body))) = (a.get(0), a.get(1)) else { return };
                        let mut rd = Rd::new(body);
                        let want = *desired.lock().unwrap();
                        let answer = if name == b"pd_sever_init" {
                            let _ = rd.u64();
                            if let (Ok(server), Ok(fwd)) = (rd.addr(), rd.addr()) {
                                *me.lock().unwrap() = Some(Info { id: want.id, server, fwd });
                            }
                            want.encode()
                        } else {
                            let Ok(st) = Status::read(&mut rd) else { return };
                            *reported.lock().unwrap() = Some(st);
                            Status::encode_opt(&if st == want { None } else { Some(want) })
                        };
                        let mut o = format!("${}\r\n", answer.len()).into_bytes();
                        o.extend_from_slice(&answer);
                        o.extend_from_slice(b"\r\n");
                        if s.write_all(&o).is_err() {
                            return;
                        }
                    }
                });
            }
        });
        p
    }
    /// tell the server at its next heartbeat, and wait until it reports so
    pub fn tell(&self, st: Status) -> bool {
        *self.desired.lock().unwrap() = st;
        wait_until(Duration::from_secs(15), || *self.reported.lock().unwrap() == Some(st))
    }
}

impl Drop for FakePd {
    fn drop(&mut self) {
        self.quit.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
    }
}

// ---- leader

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    Refuse,
    /// bytes after which the transfer ends
    Truncate(usize),
    Reset(usize),
    /// bytes after which nothing comes any more
    Stall(usize),
    Trickle,
    /// the answer comes late
    Late(u64),
    /// the answer comes when it is released
    Held,
}

pub struct Hist {
    pub m: Model,
    base: u64,
    pub states: Vec<SlotData>,
}

impl Hist {
    pub fn id(&self) -> u64 {
        self.base + self.states.len() as u64 - 1
    }
    pub fn at(&self, id: u64) -> Option<&SlotData> {
        id.checked_sub(self.base).and_then(|i| self.states.get(i as usize))
    }
}

struct Conn {
    w: Mutex<TcpStream>,
    dead: AtomicBool,
    /// the follower has asked for something
    asked: AtomicBool,
    /// the leader has vanished: nothing arrives, nothing is answered, nothing is closed
    gone: AtomicBool,
}

#[derive(Default)]
struct Shared {
    slots: Mutex<BTreeMap<usize, Hist>>,
    conns: Mutex<Vec<Arc<Conn>>>,
    plans: Mutex<VecDeque<Plan>>,
    quit: AtomicBool,
    /// does not answer pings
    mute: AtomicBool,
    down: AtomicBool,
    full: AtomicU64,
    single: AtomicU64,
    /// snapshots that wait, that may go, that are gone
    held: AtomicU64,
    release: AtomicBool,
    gone: AtomicU64,
    spoiled: AtomicU64,
    subscribed: AtomicU64,
    log: Mutex<VecDeque<String>>,
}

#[derive(Clone)]
pub struct Fake {
    pub info: Info,
    base: u64,
    sh: Arc<Shared>,
}

impl Fake {
    /// slots are numbered from `base` on
    pub fn start(id: u64, base: u64) -> Fake {
        let (ls, server) = listen();
        let (lf, fwd) = listen();
        let f = Fake { info: Info { id, server, fwd }, base, sh: Arc::default() };
        let g = f.clone();
        std::thread::spawn(move || {
            for s in ls.incoming() {
                if g.sh.quit.load(Ordering::SeqCst) {
                    return;
                }
                let Ok(s) = s else { continue };
                let g = g.clone();
                std::thread::spawn(move || g.serve(s));
            }
        });
        let g = f.clone();
        std::thread::spawn(move || {
            for s in lf.incoming() {
                if g.sh.quit.load(Ordering::SeqCst) {
                    return;
                }
                let Ok(s) = s else { continue };
                if g.sh.down.load(Ordering::SeqCst) {
                    reset_on_close(&s);
                    continue;
                }
                let _ = s.set_nodelay(true);
                let _ = s.set_write_timeout(Some(Duration::from_secs(5)));
                let Ok(mut rs) = s.try_clone() else { continue };
                let c = Arc::new(Conn { w: Mutex::new(s), dead: AtomicBool::new(false), asked: AtomicBool::new(false), gone: AtomicBool::new(false) });
                g.sh.conns.lock().unwrap().push(c.clone());
                let g = g.clone();
                std::thread::spawn(move || {
                    let mut b = [0u8; 64];
                    let none = wire::encode_msg(&Msg { id: 0, slot: 0, cmd: WCmd::None });
                    while let Ok(n) = rs.read(&mut b) {
                        if n == 0 {
                            break;
                        }
                        if !c.asked.swap(true, Ordering::SeqCst) {
                            g.sh.subscribed.fetch_add(1, Ordering::SeqCst);
                            g.note("subscribed".into());
                        }
                        if c.gone.load(Ordering::SeqCst) {
                            continue;
                        }
                        if !g.sh.mute.load(Ordering::SeqCst) && c.w.lock().unwrap().write_all(&none).is_err() {
                            break;
                        }
                    }
                    c.dead.store(true, Ordering::SeqCst);
                });
            }
        });
        f
    }
    pub fn note(&self, s: String) {
        let mut l = self.sh.log.lock().unwrap();
        if l.len() > 160 {
            l.pop_front();
        }
        l.push_back(format!("{} leader {}: {}", now_ms() % 1_000_000, self.info.id, s));
    }
    pub fn log(&self) -> String {
        self.sh.log.lock().unwrap().iter().cloned().collect::<Vec<_>>().join("\n")
    }
    /// number of a slot nothing was written to
    fn still(&self, slot: usize) -> u64 {
        self.base * (slot as u64 % 3)
    }
    pub fn full_state(&self) -> Vec<SlotSnap> {
        let h = self.sh.slots.lock().unwrap();
        (0..wire::ALL)
            .map(|s| match h.get(&s) {
                Some(h) => SlotSnap { write_id: h.id(), data: h.states.last().unwrap().clone() },
                None => SlotSnap { write_id: self.still(s), data: SlotData::new() },
            })
            .collect()
    }
    fn serve(&self, mut s: TcpStream) {
        let mut buf = vec![];
        let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
        let Some(Reply::Arr(a)) = request(&mut s, &mut buf) else { return };
        let n = match a.get(1) {
            Some(Reply::Int(n)) => *n as usize,
            Some(x) => x.text().and_then(|t| int(&t)).unwrap_or(-1) as usize,
            None => return,
        };
        if a[0].text().map(|t| t.to_ascii_lowercase()) != Some(b("syncsnapshot")) || n > wire::ALL {
            return self.note(format!("odd request {}", Reply::Arr(a).show()));
        }
        if n == wire::ALL { &self.sh.full } else { &self.sh.single }.fetch_add(1, Ordering::SeqCst);
        let plan = self.sh.plans.lock().unwrap().pop_front();
        if let Some(Plan::Late(ms)) = plan {
            std::thread::sleep(Duration::from_millis(ms));
        }
        let mut st = self.full_state();
        if plan == Some(Plan::Held) {
            // what it holds at this moment is sent much later, to a follower which has left
            for s in st.iter_mut() {
                s.write_id += 1000;
            }
            self.sh.held.fetch_add(1, Ordering::SeqCst);
            if !wait_until(Duration::from_secs(8), || self.sh.release.load(Ordering::SeqCst)) {
                return;
            }
        }
        let ids: Vec<usize> = if n == wire::ALL { (0..wire::ALL).collect() } else { vec![n] };
        let v: Vec<(usize, &SlotSnap)> = ids.iter().map(|i| (*i, &st[*i])).collect();
        let bytes = wire::encode_snapshot(&v, true);
        let what = if n == wire::ALL { "everything".to_string() } else { format!("slot {} at #{}", n, st[n].write_id) };
        self.note(format!("snapshot of {} {}", what, plan.map_or("sent".into(), |p| format!("{:?}", p))));
        if plan.is_some() {
            self.sh.spoiled.fetch_add(1, Ordering::SeqCst);
        }
        let part = |k: usize| &bytes[..k % bytes.len()];
        match plan {
            None | Some(Plan::Late(_)) => {
                let _ = s.write_all(&bytes);
            }
            Some(Plan::Held) => {
                let _ = s.write_all(&bytes);
                let _ = s.shutdown(Shutdown::Write);
                // until the follower has read everything
                let _ = s.read(&mut [0]);
                self.sh.gone.fetch_add(1, Ordering::SeqCst);
            }
            Some(Plan::Refuse) => reset_on_close(&s),
            Some(Plan::Truncate(k)) => {
                let _ = s.write_all(part(k));
            }
            Some(Plan::Reset(k)) => {
                let _ = s.write_all(part(k));
                reset_on_close(&s);
            }
            Some(Plan::Stall(k)) => {
                let _ = s.write_all(part(k));
                for _ in 0..150 {
                    if self.sh.quit.load(Ordering::SeqCst) {
                        return;
                    }
                    std::thread::sleep(Duration::from_millis(100));
                }
            }
            Some(Plan::Trickle) => {
                let n = bytes.len() / 30 + 1;
                for c in bytes.chunks(n) {
                    if s.write_all(c).is_err() {
                        return;
                    }
                    std::thread::sleep(Duration::from_millis(15));
                }
            }
        }
    }
    pub fn plan(&self, p: Plan) {
        self.sh.plans.lock().unwrap().push_back(p);
    }
    /// makes its follower ask for everything again, and keeps the answer back
    fn hold_snapshot(&self) -> bool {
        self.no_plans();
        let before = self.sh.held.load(Ordering::SeqCst);
        self.sh.release.store(false, Ordering::SeqCst);
        self.plan(Plan::Held);
        self.send_broken(&[], false);
        let ok = wait_until(Duration::from_secs(6), || self.sh.held.load(Ordering::SeqCst) > before);
        if !ok {
            self.no_plans();
        }
        ok
    }
    /// sends what was kept back, waits until it was read
    fn release_snapshot(&self) -> bool {
        let n = self.sh.held.load(Ordering::SeqCst);
        self.sh.release.store(true, Ordering::SeqCst);
        wait_until(Duration::from_secs(6), || self.sh.gone.load(Ordering::SeqCst) >= n)
    }
    pub fn no_plans(&self) {
        self.sh.plans.lock().unwrap().clear();
    }
    /// executes a write; it is not sent
    pub fn exec(&self, slot: usize, cmd: WCmd) -> Msg {
        let mut h = self.sh.slots.lock().unwrap();
        let base = self.still(slot);
        let h = h.entry(slot).or_insert_with(|| Hist { m: Model::new(), base, states: vec![SlotData::new()] });
        let m = Msg { id: h.id() + 1, slot, cmd };
        wire::apply_msg(&mut h.m, &m, 1);
        let d = data_of(&h.m);
        h.states.push(d);
        m
    }
    fn each<F: Fn(&mut TcpStream) -> std::io::Result<()>>(&self, f: F) {
        let mut cs = self.sh.conns.lock().unwrap();
        cs.retain(|c| !c.dead.load(Ordering::SeqCst));
        let all: Vec<_> = cs.clone();
        drop(cs);
        for c in all {
            if f(&mut c.w.lock().unwrap()).is_err() {
                c.dead.store(true, Ordering::SeqCst);
            }
        }
    }
    pub fn send(&self, bytes: &[u8]) {
        self.each(|s| s.write_all(bytes));
    }
    fn send_chopped(&self, bytes: &[u8], r: &mut Rng) {
        let cut: Vec<usize> = (0..1 + r.below(6)).map(|_| r.below(bytes.len())).collect();
        let pause = Duration::from_micros(r.below(3000) as u64);
        self.each(|s| {
            let mut at = 0;
            let mut cut = cut.clone();
            cut.push(bytes.len());
            cut.sort_unstable();
            for c in cut {
                s.write_all(&bytes[at..c])?;
                at = c;
                std::thread::sleep(pause);
            }
            Ok(())
        });
    }
    /// half a message, then the end
    fn send_broken(&self, bytes: &[u8], reset: bool) {
        self.each(|s| {
            let _ = s.write_all(bytes);
            if reset {
                reset_on_close(s);
            }
            let _ = s.shutdown(Shutdown::Both);
            Err(std::io::ErrorKind::Other.into())
        });
    }
    /// the other end of every link vanishes without a trace
    fn vanish(&self) -> Vec<Arc<Conn>> {
        let all: Vec<_> = std::mem::take(&mut *self.sh.conns.lock().unwrap());
        for c in &all {
            c.gone.store(true, Ordering::SeqCst);
        }
        all
    }
    fn live_conns(&self) -> usize {
        self.sh.conns.lock().unwrap().iter().filter(|c| !c.dead.load(Ordering::SeqCst)).count()
    }
}

pub struct FakeOwner(pub Fake);
impl Drop for FakeOwner {
    fn drop(&mut self) {
        self.0.sh.quit.store(true, Ordering::SeqCst);
        self.0.send_broken(&[], false);
        let _ = TcpStream::connect(self.0.info.server);
        let _ = TcpStream::connect(self.0.info.fwd);
    }
}

// ---- what the leader executes

const DAY: u64 = 86_400_000;

fn scalar(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => (r.below(2000) as i64 - 1000).to_string().into_bytes(),
        1 => {
            let n = r.below(40);
            r.bytes(n)
        }
        2 => vec![],
        3 => i64::MAX.to_string().into_bytes(),
        _ => format!("v{}", r.below(100)).into_bytes(),
    }
}

fn member(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 12) {
        scalar(r)
    } else {
        format!("m{}", r.below(8)).into_bytes()
    }
}

fn any_val(r: &mut Rng) -> Val {
    let n = 1 + r.below(5);
    match r.below(5) {
        0 => Val::Str(scalar(r)),
        1 => Val::List((0..n).map(|_| scalar(r)).collect()),
        2 => Val::Hash((0..n).map(|_| (member(r), scalar(r))).collect()),
        3 => Val::Set((0..n).map(|_| member(r)).collect()),
        _ => Val::Zset((0..n).map(|_| (member(r), r.range(-20, 20) as f64 / 4.0)).collect()),
    }
}

/// a write to some key of the slot with this tag
fn op(r: &mut Rng, tag: &str) -> WCmd {
    let n = r.below(12);
    // all members of this sorted set have the same score
    let level = n == 11;
    let key = format!("{{{}}}{}", tag, n).into_bytes();
    let far = |r: &mut Rng| (now_ms() + DAY + r.below(1 << 30) as u64).to_string().into_bytes();
    let mut c: Cmd = vec![vec![], key.clone()];
    if r.chance(1, 60) {
        return if r.chance(1, 2) { WCmd::Flush } else { WCmd::None };
    }
    if r.chance(1, 12) {
        // a key that is about to expire: only written as a whole
        let key = format!("{{{}}}near{}", tag, r.below(4)).into_bytes();
        return match r.below(4) {
            0 => WCmd::Cmd(vec![b("del"), key]),
            1 => WCmd::Put(key, any_val(r), now_ms() + r.below(1500) as u64, false),
            _ => {
                let at = now_ms() + r.below(1500) as u64;
                WCmd::Cmd(vec![b("set"), key, scalar(r), b("pxat"), at.to_string().into_bytes()])
            }
        };
    }
    // mostly the commands that fit what the key usually holds
    let fam = if r.chance(1, 7) { r.below(6) } else { n % 6 };
    let name = match fam {
        0 => *r.pick(&["set", "set", "set", "del", "pexpireat", "put"]),
        1 => *r.pick(&["incrby", "incrby", "incrby", "set", "pexpireat", "del"]),
        2 => *r.pick(&["hset", "hset", "hset", "hsetnx", "hdel", "hincrby", "hincrby", "pexpireat"]),
        3 => *r.pick(&["lpush", "rpush", "lpushx", "rpushx", "lpop", "rpop", "lpush", "pexpireat"]),
        4 => *r.pick(&["sadd", "sadd", "srem", "pexpireat"]),
        _ => *r.pick(&["zadd", "zadd", "zadd", "zrem", "zremrangebyrank", "zremrangebyscore", "zremrangebylex", "pexpireat"]),
    };
    c[0] = b(name);
    match name {
        "put" => {
            let exp = if r.chance(1, 2) { now_ms() + DAY } else { 0 };
            let v = if level { Val::Zset((0..4).map(|_| (member(r), 1.0)).collect()) } else { any_val(r) };
            return WCmd::Put(key, v, exp, r.chance(1, 2));
        }
        "set" => {
            c.push(if fam == 1 { b("10") } else { scalar(r) });
            match r.below(4) {
                0 => {
                    c.push(b("pxat"));
                    c.push(far(r));
                }
                1 => c.push(b("keepttl")),
                _ => (),
            }
            match r.below(5) {
                0 => c.push(b("nx")),
                1 => c.push(b("xx")),
                _ => (),
            }
            if r.chance(1, 4) {
                c.push(b("get"));
            }
        }
        "pexpireat" => {
            c.push(far(r));
            match r.below(6) {
                0 => c.push(b("nx")),
                1 => c.push(b("xx")),
                2 => c.push(b("gt")),
                3 => c.push(b("lt")),
                _ => (),
            }
        }
        "incrby" => c.push(r.range(-9, 9).to_string().into_bytes()),
        "hset" => {
            for _ in 0..1 + r.below(3) {
                c.push(member(r));
                c.push(scalar(r));
            }
        }
        "hsetnx" => {
            c.push(member(r));
            c.push(scalar(r));
        }
        "hincrby" => {
            c.push(member(r));
            c.push(r.range(-9, 9).to_string().into_bytes());
        }
        "hdel" | "sadd" | "srem" | "zrem" => {
            for _ in 0..1 + r.below(3) {
                c.push(member(r));
            }
        }
        "lpush" | "rpush" | "lpushx" | "rpushx" => {
            for _ in 0..1 + r.below(3) {
                c.push(scalar(r));
            }
        }
        "lpop" | "rpop" => c.push(r.below(4).to_string().into_bytes()),
        "zadd" => {
            let incr = !level && r.chance(1, 4);
            match r.below(6) {
                0 => c.push(b("nx")),
                1 => c.push(b("xx")),
                2 => c.push(b("gt")),
                3 => c.push(b("lt")),
                _ => (),
            }
            if incr {
                c.push(b("incr"));
            }
            for _ in 0..if incr { 1 } else { 1 + r.below(3) } {
                c.push(if level { b("1") } else { format!("{}", r.range(-20, 20) as f64 / 4.0).into_bytes() });
                c.push(member(r));
            }
        }
        "zremrangebyrank" => {
            c.push(r.range(-4, 4).to_string().into_bytes());
            c.push(r.range(-4, 4).to_string().into_bytes());
        }
        "zremrangebyscore" => {
            for x in ["-inf", "+inf"] {
                let e = if r.chance(1, 2) { "(" } else { "" };
                c.push(if r.chance(1, 4) { b(x) } else { format!("{}{}", e, r.range(-20, 20) as f64 / 4.0).into_bytes() });
            }
        }
        "zremrangebylex" => {
            // members are only ordered among equal scores
            for x in ["-", "+"] {
                c.push(match r.below(3) {
                    1 if level => [b("["), format!("m{}", r.below(8)).into_bytes()].concat(),
                    2 if level => [b("("), format!("m{}", r.below(8)).into_bytes()].concat(),
                    _ => b(x),
                });
            }
        }
        _ => (),
    }
    WCmd::Cmd(c)
}

// ---- the monitor

struct Watch<'a> {
    ctx: &'a Ctx,
    name: String,
    sources: Mutex<(u64, Vec<Fake>, bool)>,
    paused: AtomicBool,
    stop: AtomicBool,
    bad: AtomicBool,
}

/// without what may have expired meanwhile
pub fn lasting(d: &SlotData, until: u64) -> SlotData {
    d.iter().filter(|(_, (_, e))| *e == 0 || *e > until + 5).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn only_far(d: &SlotData) -> SlotData {
    d.iter().filter(|(_, (_, e))| *e == 0 || *e > now_ms() + DAY / 2).map(|(k, v)| (k.clone(), v.clone())).collect()
}

impl Watch<'_> {
    /// from now on the follower shows states of these leaders (or nothing at all yet)
    fn allow(&self, v: &[&Fake], empty: bool) {
        let mut s = self.sources.lock().unwrap();
        s.0 += 1;
        s.1 = v.iter().map(|f| (*f).clone()).collect();
        s.2 = empty;
    }
    fn fail(&self, what: &str, detail: &str) {
        self.bad.store(true, Ordering::SeqCst);
        let logs: Vec<String> = self.sources.lock().unwrap().1.iter().map(Fake::log).collect();
        self.ctx.violation(&format!("{} ({})", what, self.name), &format!("{}\n{}", detail, logs.join("\n")));
    }
    /// judges one snapshot of the follower
    fn judge(&self, snap: &Snap, end: u64, fakes: &[Fake], empty: bool, last: &mut BTreeMap<usize, u64>) -> bool {
        for slot in 0..wire::ALL {
            let got = match snap.slots.get(&slot) {
                Some(s) => s,
                None => {
                    self.fail("a snapshot of the follower misses a slot", &slot.to_string());
                    return false;
                }
            };
            if empty && got.write_id == 0 && got.data.is_empty() {
                continue;
            }
            let mut ok = false;
            let mut why = vec![];
            for f in fakes {
                let h = f.sh.slots.lock().unwrap();
                let want = match h.get(&slot) {
                    None if f.still(slot) == got.write_id => Some(SlotData::new()),
                    None => None,
                    Some(h) => h.at(got.write_id).cloned(),
                };
                let latest = h.get(&slot).map_or(f.still(slot), Hist::id);
                drop(h);
                match want {
                    None => why.push(format!("leader {} is at #{}", f.info.id, latest)),
                    Some(w) => {
                        let (w, g) = (lasting(&w, end), lasting(&got.data, end));
                        if w == g {
                            ok = true;
                            if w.len() + latest as usize > 0 && !g.is_empty() {
                                self.ctx.eval(format!("{} {} {} {}", self.name, f.info.id, slot, got.write_id).as_bytes());
                                if got.write_id < latest {
                                    self.ctx.count("slot states seen while the follower lagged behind", 1);
                                }
                            }
                            break;
                        }
                        why.push(format!("leader {} at this number:\n{}", f.info.id, diff(&g, &w, "follower", "leader").join("\n")));
                    }
                }
            }
            if !ok {
                self.fail(
                    "a slot of the follower is in a state its leader's slot never had",
                    &format!("slot {} at #{}\n{}", slot, got.write_id, why.join("\n")),
                );
                return false;
            }
            if fakes.len() == 1 && !empty {
                let l = last.entry(slot).or_default();
                if got.write_id < *l {
                    self.fail("a slot of the follower went back", &format!("slot {}: #{} after #{}", slot, got.write_id, l));
                    return false;
                }
                *l = got.write_id;
            }
        }
        true
    }
    fn poll(&self, addr: SocketAddr, r: &mut Rng) {
        let mut last = BTreeMap::new();
        let mut era = 0;
        while !self.stop.load(Ordering::SeqCst) && !self.bad.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(5 + r.below(60) as u64));
            if self.paused.load(Ordering::SeqCst) {
                continue;
            }
            let (e, fakes, empty) = {
                let s = self.sources.lock().unwrap();
                (s.0, s.1.clone(), s.2)
            };
            if e != era {
                era = e;
                last.clear();
            }
            match wire::snapshot(addr, wire::ALL) {
                Ok(s) => {
                    let end = now_ms();
                    if self.sources.lock().unwrap().0 != e || self.paused.load(Ordering::SeqCst) {
                        continue;
                    }
                    self.ctx.count("snapshots of followers judged", 1);
                    if !self.judge(&s, end, &fakes, empty, &mut last) {
                        return;
                    }
                }
                Err(e) => {
                    if !self.paused.load(Ordering::SeqCst) && !self.stop.load(Ordering::SeqCst) {
                        self.ctx.count(&format!("snapshots of followers that failed: {}", e), 1);
                    }
                }
            }
        }
    }
    /// the follower holds the latest state of the leader
    fn converge(&self, addr: SocketAddr, f: &Fake, within: Duration, what: &str) -> bool {
        let t = Instant::now();
        let mut why = String::new();
        loop {
            if self.bad.load(Ordering::SeqCst) || self.ctx.violated() {
                return false;
            }
            match wire::snapshot(addr, wire::ALL) {
                Ok(s) => {
                    let end = now_ms();
                    let want = f.full_state();
                    let off = (0..wire::ALL).find(|i| {
                        s.slots.get(i).map_or(true, |g| g.write_id != want[*i].write_id || lasting(&g.data, end) != lasting(&want[*i].data, end))
                    });
                    match off {
                        None => {
                            self.ctx.count(&format!("converged {}", what), 1);
                            self.ctx.max(&format!("slowest convergence {}, ms", what), t.elapsed().as_millis() as u64);
                            return true;
                        }
                        Some(i) => {
                            let empty = SlotSnap::default();
                            let g = s.slots.get(&i).unwrap_or(&empty);
                            why = format!(
                                "slot {}: follower at #{}, leader at #{}\n{}",
                                i,
                                g.write_id,
                                want[i].write_id,
                                diff(&lasting(&g.data, end), &lasting(&want[i].data, end), "follower", "leader").join("\n")
                            );
                        }
                    }
                }
                Err(e) => why = e,
            }
            if t.elapsed() > within + stalled(t) {
                self.fail(&format!("the follower does not converge {} although the leader is reachable and quiet", what), &why);
                return false;
            }
            std::thread::sleep(Duration::from_millis(60));
        }
    }
}

/// tags of keys in different slots
fn tags(n: usize, r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let t = format!("t{}", r.below(100_000));
        if v.iter().all(|x| key_slot(x.as_bytes()) != key_slot(t.as_bytes())) {
            v.push(t);
        }
    }
    v
}

fn one(f: &Fake, r: &mut Rng, tag: &str) -> Msg {
    let c = op(r, tag);
    let m = f.exec(key_slot(tag.as_bytes()), c);
    f.note(m.show());
    m
}

#[derive(Default)]
struct Mix {
    drop: usize,
    dup: usize,
    late: usize,
    stale: usize,
    chop: usize,
    close: usize,
    half: usize,
    idle: usize,
    burst: usize,
    spoil: usize,
}

/// the leader executes and sends for a while
fn script(ctx: &Ctx, w: &Watch, f: &Fake, r: &mut Rng, tg: &mut Vec<String>, until: Instant, mix: &Mix) {
    let mut held: VecDeque<(usize, Vec<u8>, u64)> = VecDeque::new();
    let mut old: Vec<Vec<u8>> = vec![];
    // the first messages of slots nothing was written to before
    let mut first: Vec<Vec<u8>> = vec![];
    let mut n = 0u64;
    let mut spoiled = 0;
    while Instant::now() < until && !w.bad.load(Ordering::SeqCst) {
        n += 1;
        if tg.len() < 30 && r.chance(1, 40) {
            let t = format!("n{}", r.below(100_000));
            if tg.iter().all(|x| key_slot(x.as_bytes()) != key_slot(t.as_bytes())) {
                tg.push(t);
            }
        }
        let tag = if r.chance(1, 3) { tg.last().unwrap() } else { r.pick(tg) }.clone();
        let m = one(f, r, &tag);
        let bytes = wire::encode_msg(&m);
        if m.id <= f.still(m.slot) + 3 {
            first.push(bytes.clone());
        }
        // late ones which are due
        while held.front().map_or(false, |h| h.2 <= n) {
            let (slot, bytes, _) = held.pop_front().unwrap();
            f.note(format!("late message of slot {} is sent", slot));
            f.send(&bytes);
        }
        let roll = |r: &mut Rng, p: usize| r.chance(p, 1000);
        if mix.spoil > 0 && roll(r, mix.spoil) && spoiled < 8 {
            spoiled += 1;
            let k = r.below(600_000);
            let p = match r.below(7) {
                0 => Plan::Refuse,
                1 | 2 => Plan::Truncate(k),
                3 => Plan::Reset(k),
                4 => Plan::Trickle,
                5 => Plan::Late(r.below(600) as u64),
                _ => {
                    if spoiled == 5 {
                        Plan::Stall(k)
                    } else {
                        Plan::Truncate(r.below(60))
                    }
                }
            };
            f.plan(p);
        }
        if roll(r, mix.drop) {
            f.note(format!("#{} of slot {} is lost", m.id, m.slot));
            ctx.count("messages lost", 1);
        } else if roll(r, mix.late) {
            f.note(format!("#{} of slot {} is held back", m.id, m.slot));
            held.push_back((m.slot, bytes.clone(), n + 1 + r.below(12) as u64));
            ctx.count("messages out of order", 1);
        } else if roll(r, mix.half) {
            let k = r.below(bytes.len());
            f.note(format!("the stream breaks after {} of {} bytes of #{} of slot {}", k, bytes.len(), m.id, m.slot));
            f.send_broken(&bytes[..k], r.chance(1, 2));
            ctx.count("streams broken inside a message", 1);
            std::thread::sleep(Duration::from_millis(r.below(1500) as u64));
        } else if roll(r, mix.chop) {
            f.send_chopped(&bytes, r);
            ctx.count("messages in fragments", 1);
        } else {
            f.send(&bytes);
        }
        if roll(r, mix.dup) {
            f.note(format!("#{} of slot {} is sent again", m.id, m.slot));
            f.send(&bytes);
            ctx.count("messages repeated", 1);
        }
        if roll(r, mix.stale) && !old.is_empty() {
            let b = if !first.is_empty() && r.chance(1, 3) { r.pick(&first) } else { r.pick(&old) }.clone();
            f.send(&b);
            ctx.count("stale messages", 1);
        }
        let still = f.still(m.slot);
        if still > 0 && roll(r, mix.stale) {
            // one from long before the follower joined
            let back = if r.chance(1, 2) { r.below(still.min(3000) as usize) as u64 } else { still - 1 - r.below(still.min(3000) as usize) as u64 };
            f.send(&wire::encode_msg(&Msg { id: still - back, slot: m.slot, cmd: m.cmd.clone() }));
            ctx.count("messages from before the snapshot", 1);
        }
        if old.len() < 400 {
            old.push(bytes);
        } else {
            let i = r.below(400);
            old[i] = bytes;
        }
        if roll(r, mix.close) {
            f.note("the stream is closed".into());
            f.send_broken(&[], r.chance(1, 2));
            ctx.count("streams closed", 1);
            if r.chance(1, 3) {
                f.sh.down.store(true, Ordering::SeqCst);
                std::thread::sleep(Duration::from_millis(r.below(1800) as u64));
                f.sh.down.store(false, Ordering::SeqCst);
            }
        }
        if roll(r, mix.idle) {
            std::thread::sleep(Duration::from_millis(1000 + r.below(1400) as u64));
            ctx.count("idle periods", 1);
        }
        if !roll(r, mix.burst) {
            std::thread::sleep(Duration::from_micros(r.below(2500) as u64));
        }
    }
    ctx.count("writes executed by scripted leaders", n);
    for (_, bytes, _) in held {
        f.send(&bytes);
    }
    f.sh.down.store(false, Ordering::SeqCst);
    f.no_plans();
}

/// one undisturbed write to every slot in use, and to new ones: whatever was lost before becomes visible to the follower
fn last_words(f: &Fake, r: &mut Rng, tags: &[String]) {
    let new: Vec<String> = (0..8).map(|_| format!("z{}", r.below(1_000_000))).collect();
    for t in tags.iter().chain(&new) {
        if r.chance(1, 2) {
            for _ in 0..1 + r.below(3) {
                f.note("lost:".into());
                one(f, r, t);
            }
        }
        let m = one(f, r, t);
        f.send(&wire::encode_msg(&m));
    }
}

fn follower_of(f: &Fake) -> Status {
    Status { id: 77, group: 1, leader: false, cur: Some(f.info) }
}

/// what clients of the follower read
fn readback(ctx: &Ctx, w: &Watch, srv: &Server, f: &Fake) {
    let mut c = srv.client();
    let state: Vec<(usize, SlotSnap)> = f.full_state().into_iter().enumerate().filter(|(_, s)| !s.data.is_empty()).collect();
    let mut m = Model::new();
    for (_, s) in state {
        for (k, (v, e)) in only_far(&s.data) {
            m.map.insert(k, Entry { val: v, exp: e });
        }
    }
    let keys: Vec<Vec<u8>> = m.map.keys().cloned().collect();
    for k in keys {
        for cmd in m.readback(&k) {
            let o = c.cmd(&cmd);
            let e = m.apply(&cmd, now_ms(), Some(&o));
            ctx.count("reads of followers' clients", 1);
            if !e.ok(&o) {
                return w.fail("a client of the follower reads something else than its leader holds", &format!("{} -> {}, expected {}", esc_cmd(&cmd), o.show(), e.show()));
            }
        }
    }
}

fn mix(kind: usize) -> (&'static str, Mix) {
    match kind % 6 {
        0 => ("losses", Mix { drop: 60, dup: 20, chop: 30, burst: 300, ..Default::default() }),
        1 => ("repeats and late messages", Mix { dup: 200, late: 120, stale: 150, chop: 20, burst: 700, ..Default::default() }),
        2 => ("broken streams", Mix { close: 4, half: 4, dup: 20, stale: 20, chop: 50, burst: 300, ..Default::default() }),
        3 => ("spoiled snapshots", Mix { drop: 12, late: 12, close: 2, half: 2, spoil: 15, burst: 300, ..Default::default() }),
        4 => ("idle periods", Mix { drop: 15, idle: 4, close: 1, chop: 30, burst: 600, ..Default::default() }),
        _ => ("everything", Mix { drop: 20, dup: 40, late: 30, stale: 30, chop: 30, close: 2, half: 2, spoil: 6, idle: 1, burst: 400 }),
    }
}

fn scenario(ctx: &Ctx, r: &mut Rng, kind: usize, secs: u64) {
    let (name, mix) = mix(kind);
    let a = FakeOwner(Fake::start(1, *r.pick(&[0, 3000, 5, 1 << 33])));
    let bl = FakeOwner(Fake::start(2, *r.pick(&[0, 2, 900, 4000])));
    let (a, bl) = (&a.0, &bl.0);
    let mut tg = tags(4 + r.below(4), r);
    // the group already has content
    for _ in 0..60 {
        let t = r.pick(&tg).clone();
        one(a, r, &t);
        let t = r.pick(&tg).clone();
        one(bl, r, &t);
    }
    let pd = FakePd::start(follower_of(a));
    let opts = Opts { pd: Some((pd.addr, 1)), delay: if r.chance(1, 2) { Some((20, 800)) } else { None }, ..Default::default() };
    let mut srv = match Server::start(&ctx.bins, &opts) {
        Ok(s) => s,
        Err(e) => return ctx.inconclusive(&e),
    };
    let again = Opts { addr: Some(srv.addr), fwd: Some(srv.fwd), ..opts.clone() };
    let addr = srv.addr;
    let w = Watch {
        ctx,
        name: name.into(),
        sources: Mutex::new((1, vec![a.clone()], true)),
        paused: AtomicBool::new(false),
        stop: AtomicBool::new(false),
        bad: AtomicBool::new(false),
    };
    let limit = Duration::from_secs(if mix.spoil > 0 { 35 } else { 20 });
    std::thread::scope(|s| {
        let mut pr = r.fork(5);
        let w = &w;
        s.spawn(move || w.poll(addr, &mut pr));
        let mut run = || {
            if !w.converge(addr, a, limit, "after joining") {
                return;
            }
            w.allow(&[a], false);
            script(ctx, w, a, r, &mut tg, Instant::now() + Duration::from_millis(secs * 1000), &mix);
            last_words(a, r, &tg);
            if !w.converge(addr, a, limit, "after faults") {
                return;
            }
            readback(ctx, w, &srv, a);
            // the process is replaced, or stopped for a while
            if kind % 3 == 1 {
                w.paused.store(true, Ordering::SeqCst);
                srv.stop();
                for _ in 0..20 {
                    let t = r.pick(&tg).clone();
                    one(a, r, &t);
                }
                srv = match Server::start(&ctx.bins, &again) {
                    Ok(s) => s,
                    Err(e) => return ctx.inconclusive(&e),
                };
                w.allow(&[a], true);
                w.paused.store(false, Ordering::SeqCst);
                if !w.converge(addr, a, limit, "after a restart") {
                    return;
                }
                w.allow(&[a], false);
            } else if kind % 3 == 2 {
                w.paused.store(true, Ordering::SeqCst);
                srv.signal(SIGSTOP);
                for _ in 0..300 {
                    let t = r.pick(&tg).clone();
                    let m = one(a, r, &t);
                    f_send(a, &m);
                }
                srv.signal(SIGCONT);
                w.paused.store(false, Ordering::SeqCst);
                if !w.converge(addr, a, limit, "after being stopped") {
                    return;
                }
            }
            // another leader, while everything is being transferred again from this one
            let held = a.hold_snapshot();
            w.allow(&[a, bl], false);
            *pd.desired.lock().unwrap() = follower_of(bl);
            let stop = AtomicBool::new(false);
            let mut r2 = r.fork(9);
            let done = std::thread::scope(|s| {
                let tg = &tg;
                let stop = &stop;
                s.spawn(move || {
                    while !stop.load(Ordering::SeqCst) {
                        let t = r2.pick(tg).clone();
                        let m = one(a, &mut r2, &t);
                        f_send(a, &m);
                        std::thread::sleep(Duration::from_micros(1500));
                    }
                });
                let d = w.converge(addr, bl, limit, "to a new leader");
                stop.store(true, Ordering::SeqCst);
                d
            });
            if !done {
                return;
            }
            w.allow(&[bl], false);
            if held && a.release_snapshot() {
                ctx.count("snapshots of former leaders delivered late", 1);
                std::thread::sleep(Duration::from_millis(100));
                if !w.converge(addr, bl, limit, "to a new leader, and stays there") {
                    return;
                }
            }
            // messages of the former leader with numbers that would fit
            for t in &tg {
                let slot = key_slot(t.as_bytes());
                let id = bl.full_state()[slot].write_id + 1;
                let m = Msg { id, slot, cmd: WCmd::Cmd(vec![b("set"), format!("{{{}}}ghost", t).into_bytes(), b("boo")]) };
                f_send(a, &m);
            }
            ctx.count("streams of former leaders still open", a.live_conns() as u64);
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_millis(700) {
                let t = r.pick(&tg).clone();
                let m = one(bl, r, &t);
                f_send(bl, &m);
                std::thread::sleep(Duration::from_micros(1500));
            }
            if !w.converge(addr, bl, limit, "to a new leader, writes going on") {
                return;
            }
            // it leads itself
            w.paused.store(true, Ordering::SeqCst);
            let held = bl.hold_snapshot();
            let me = pd.me.lock().unwrap().unwrap_or(a.info);
            if !pd.tell(Status { id: 77, group: 1, leader: true, cur: Some(me) }) {
                return w.fail("a server told to lead does not report so", &srv.log_tail());
            }
            let before = wire::snapshot(addr, wire::ALL);
            if held && bl.release_snapshot() {
                ctx.count("snapshots of former leaders delivered to a leader", 1);
            }
            for t in &tg {
                for _ in 0..3 {
                    let m = one(bl, r, t);
                    f_send(bl, &m);
                }
            }
            let mut c = srv.client();
            let key = format!("{{{}}}mine", tg[0]).into_bytes();
            let o = c.cmd(&[b("set"), key.clone(), b("1")]);
            std::thread::sleep(Duration::from_millis(400));
            let end = now_ms();
            match (before, wire::snapshot(addr, wire::ALL)) {
                (Ok(x), Ok(mut y)) => {
                    let slot = key_slot(&key);
                    let mine = y.slots.get_mut(&slot).and_then(|s| s.data.remove(&key));
                    if !o.is_ok() || mine != Some((Val::Str(b("1")), 0)) {
                        return w.fail("a promoted follower does not keep a client's write", &format!("{} {:?}", o.show(), mine));
                    }
                    let (x, y) = (lasting(&x.all(), end), lasting(&y.all(), end));
                    if x != y {
                        return w.fail("a promoted follower still applies its former leader's writes", &diff(&x, &y, "before", "after").join("\n"));
                    }
                    ctx.count("promotions", 1);
                }
                (Err(e), _) | (_, Err(e)) => return ctx.inconclusive(&e),
            }
            // and follows again
            w.allow(&[a], false);
            *pd.desired.lock().unwrap() = follower_of(a);
            if !w.converge(addr, a, limit, "after leading") {
                return;
            }
            w.paused.store(false, Ordering::SeqCst);
            script(ctx, w, a, r, &mut tg, Instant::now() + Duration::from_millis(500), &mix);
            last_words(a, r, &tg);
            if !w.converge(addr, a, limit, "after leading, with faults") {
                return;
            }
            readback(ctx, w, &srv, a);
            if !srv.panics().is_empty() {
                w.fail("a follower panicked", &srv.panics().join("\n"));
            }
        };
        run();
        w.stop.store(true, Ordering::SeqCst);
    });
    for f in [a, bl] {
        ctx.count("full snapshots served", f.sh.full.load(Ordering::SeqCst));
        ctx.count("slot snapshots served", f.sh.single.load(Ordering::SeqCst));
        ctx.count("snapshots spoiled", f.sh.spoiled.load(Ordering::SeqCst));
        ctx.count("subscriptions", f.sh.subscribed.load(Ordering::SeqCst));
    }
    ctx.count(&format!("scenarios: {}", name), 1);
    let l = a.log();
    ctx.sample(format!("{}: ...{}", name, l.lines().rev().take(8).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ")));
}

fn f_send(f: &Fake, m: &Msg) {
    f.send(&wire::encode_msg(m));
}

/// a command the leader executed before the deadline reaches the follower after it
/// the stream falls silent without being closed, between messages or inside one
fn silence(ctx: &Ctx, r: &mut Rng, inside: bool) {
    let a = FakeOwner(Fake::start(1, 0));
    let a = &a.0;
    let pd = FakePd::start(follower_of(a));
    let srv = match Server::start(&ctx.bins, &Opts { pd: Some((pd.addr, 1)), ..Default::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.inconclusive(&e),
    };
    if !wait_until(Duration::from_secs(15), || a.sh.full.load(Ordering::SeqCst) > 0) {
        return ctx.violation("a follower asks for no snapshot", &srv.log_tail());
    }
    std::thread::sleep(Duration::from_millis(300));
    let set = |i: usize, v: u64| {
        let k = format!("silent{}", i).into_bytes();
        a.exec(key_slot(&k), WCmd::Cmd(vec![b("set"), k, v.to_string().into_bytes()]))
    };
    for i in 0..20 {
        f_send(a, &set(i, r.below(1000) as u64));
    }
    if inside {
        let m = wire::encode_msg(&set(0, 77));
        a.send(&m[..1 + r.below(m.len() - 1)]);
    }
    let held = a.vanish();
    let t = Instant::now();
    for i in 0..30 {
        set(i, 1000 + r.below(1000) as u64);
    }
    let mut why = String::new();
    let mut sent = false;
    loop {
        // a client of the leader goes on, once there is a new link
        if !sent && a.live_conns() > 0 && t.elapsed() > Duration::from_millis(500) {
            sent = true;
            f_send(a, &set(3, 5555));
        }
        match wire::snapshot(srv.addr, wire::ALL) {
            Ok(s) => {
                let want = a.full_state();
                match (0..wire::ALL).find(|i| s.slots.get(i).map_or(true, |g| g.write_id != want[*i].write_id || g.data != want[*i].data)) {
                    None => break,
                    Some(i) => why = format!("slot {}: follower at #{}, leader at #{}", i, s.slots.get(&i).map_or(0, |g| g.write_id), want[i].write_id),
                }
            }
            Err(e) => why = e,
        }
        if t.elapsed() > Duration::from_secs(20) + stalled(t) {
            ctx.violation(
                &format!("a follower does not join its leader again when its link has fallen silent{}", if inside { " inside a message" } else { "" }),
                &format!("{}\n{}", why, srv.log_tail()),
            );
            return;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    drop(held);
    ctx.eval(format!("silence {}", inside).as_bytes());
    ctx.count("silent links replaced", 1);
    ctx.max("slowest recovery from a silent link, ms", t.elapsed().as_millis() as u64);
}

fn late_apply(ctx: &Ctx) {
    let a = FakeOwner(Fake::start(1, 0));
    let a = &a.0;
    let pd = FakePd::start(follower_of(a));
    let srv = match Server::start(&ctx.bins, &Opts { pd: Some((pd.addr, 1)), ..Default::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.inconclusive(&e),
    };
    if !wait_until(Duration::from_secs(15), || a.sh.full.load(Ordering::SeqCst) > 0) {
        return ctx.violation("a follower asks for no snapshot", &srv.log_tail());
    }
    std::thread::sleep(Duration::from_millis(500));
    let key = b("late");
    let slot = key_slot(&key);
    let at = now_ms() + 300;
    let m1 = a.exec(slot, WCmd::Cmd(vec![b("set"), key.clone(), b("5"), b("pxat"), at.to_string().into_bytes()]));
    let m2 = a.exec(slot, WCmd::Cmd(vec![b("incrby"), key.clone(), b("1")]));
    f_send(a, &m1);
    std::thread::sleep(Duration::from_millis(at.saturating_sub(now_ms()) + 400));
    f_send(a, &m2);
    // the leader's key is gone; so must the follower's be
    let t = Instant::now();
    loop {
        match wire::snapshot(srv.addr, slot) {
            Ok(s) if s.slots[&slot].write_id == m2.id => {
                if let Some((v, e)) = s.get(&key) {
                    ctx.finding(
                        "late-apply-after-deadline",
                        "a replicated command that arrives after its key's deadline creates the key anew on the follower",
                        &format!("follower: {} deadline {}; on the leader the key expired", v.show(), e),
                    );
                }
                ctx.eval(b"late apply");
                return;
            }
            Ok(_) => (),
            Err(e) => return ctx.inconclusive(&e),
        }
        if t.elapsed() > Duration::from_secs(15) {
            return ctx.violation("a follower does not apply a plain message within 15 s", &srv.log_tail());
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("one evaluation: one non-empty slot of one polled snapshot of a real follower, judged against the scripted leader's recorded state under the same number; distinct: fault mix, leader, slot and number differ");
    ctx.assume("keys whose deadline passes during a run are only written as a whole; what is within 5 ms of its deadline is not judged");
    ctx.assume("after the faults every slot in use receives one more undisturbed write; convergence may take 20 s (35 s with stalled snapshot transfers, whose timeout is 10 s)");
    let until = ctx.deadline(1, 600);
    par(9, |t| {
        let mut r = ctx.rng(t as u64);
        if t == 6 {
            return late_apply(ctx);
        }
        if t > 6 {
            return silence(ctx, &mut r, t == 8);
        }
        let mut k = t;
        loop {
            scenario(ctx, &mut r, k, ctx.n(6, 20) as u64);
            k += 1;
            if Instant::now() >= until || ctx.violated() || !ctx.thorough {
                break;
            }
        }
    });
}

/// a follower reclaims what it got from its leader, and only that (C12)
pub fn reclaim(ctx: &Ctx, r: &mut Rng, quiet: bool) {
    const GRACE: u64 = 3000;
    let a = FakeOwner(Fake::start(1, 0));
    let a = &a.0;
    let tg = tags(12, r);
    let mut dead: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    let mut keep: BTreeMap<Vec<u8>, Val> = BTreeMap::new();
    let t0 = Instant::now();
    let mut n = 0;
    let mut key = |t: &str, what: &str| {
        n += 1;
        format!("{{{}}}{}{}", t, what, n).into_bytes()
    };
    let set = |k: &[u8], at: u64| WCmd::Cmd(vec![b("set"), k.to_vec(), b("v"), b("pxat"), at.to_string().into_bytes()]);
    let slot = |t: &str| key_slot(t.as_bytes());
    for t in &tg {
        for i in 0..6 {
            let at = now_ms() + 1500 + 150 * i + r.below(200) as u64;
            let k = key(t, "snap");
            a.exec(slot(t), if i % 2 == 0 { set(&k, at) } else { WCmd::Put(k.clone(), any_val(r), at, false) });
            dead.insert(k, at);
            let k = key(t, "far");
            a.exec(slot(t), set(&k, now_ms() + DAY));
            keep.insert(k, Val::Str(b("v")));
        }
    }
    // the only key of its slot, the only one with a deadline
    for t in tags(8, r) {
        let at = now_ms() + 1500 + r.below(900) as u64;
        let k = key(&t, "only");
        a.exec(slot(&t), set(&k, at));
        dead.insert(k, at);
        if r.chance(1, 2) {
            let k = key(&t, "beside");
            a.exec(slot(&t), WCmd::Cmd(vec![b("set"), k.clone(), b("v")]));
            keep.insert(k, Val::Str(b("v")));
        }
    }
    let pd = FakePd::start(follower_of(a));
    let delay = if r.chance(1, 2) { Some((20, 500)) } else { None };
    let srv = match Server::start(&ctx.bins, &Opts { pd: Some((pd.addr, 1)), delay, ..Default::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.inconclusive(&e),
    };
    if !wait_until(Duration::from_secs(15), || wire::snapshot(srv.addr, wire::ALL).map_or(false, |s| s.keys() > 0)) {
        return ctx.inconclusive("the follower takes no snapshot");
    }
    let soon = |r: &mut Rng| now_ms() + 1200 + r.below(900) as u64;
    // nothing but the snapshot brings deadlines
    if quiet {
        ctx.count("followers whose deadlines all came with a snapshot", 1);
    }
    for round in 0..if quiet { 0 } else { 6 } {
        for t in &tg {
            let s = slot(t);
            let go = |c: WCmd, lose: bool| {
                let m = a.exec(s, c);
                if !lose {
                    f_send(a, &m);
                }
            };
            // plain
            let (k, at) = (key(t, "plain"), soon(r));
            go(set(&k, at), false);
            dead.insert(k, at);
            // shortened
            let (k, at) = (key(t, "short"), soon(r));
            go(set(&k, now_ms() + DAY), false);
            go(WCmd::Cmd(vec![b("pexpireat"), k.clone(), at.to_string().into_bytes()]), false);
            dead.insert(k, at);
            // extended, cleared, deleted and made again
            let (k, at) = (key(t, "ext"), soon(r));
            go(set(&k, at), false);
            go(
                match round % 4 {
                    0 => WCmd::Cmd(vec![b("pexpireat"), k.clone(), (now_ms() + DAY).to_string().into_bytes()]),
                    1 => WCmd::Cmd(vec![b("set"), k.clone(), b("v")]),
                    2 => WCmd::Put(k.clone(), Val::Str(b("v")), now_ms() + DAY, false),
                    _ => WCmd::Cmd(vec![b("del"), k.clone()]),
                },
                false,
            );
            if round % 4 == 3 {
                go(WCmd::Cmd(vec![b("set"), k.clone(), b("v")]), false);
            }
            keep.insert(k, Val::Str(b("v")));
            // a deadline that changes inside a gap: the slot is fetched again
            if r.chance(1, 3) {
                let (k, at) = (key(t, "gap"), soon(r));
                go(set(&k, at), false);
                go(set(&k, now_ms() + DAY), true);
                keep.insert(k, Val::Str(b("v")));
                let (k, at) = (key(t, "gapdead"), soon(r));
                go(set(&k, at), true);
                dead.insert(k, at);
                let k = key(t, "gapend");
                go(WCmd::Cmd(vec![b("set"), k.clone(), b("v")]), false);
                keep.insert(k, Val::Str(b("v")));
            }
        }
        std::thread::sleep(Duration::from_millis(60));
    }
    let sent = t0.elapsed();
    let end = dead.values().max().copied().unwrap_or(0) + GRACE;
    loop {
        let asked = now_ms();
        let s = match wire::snapshot(srv.addr, wire::ALL) {
            Ok(s) => s,
            Err(e) => return ctx.inconclusive(&e),
        };
        if stalled(t0) > Duration::from_millis(500) {
            return ctx.count("not judged: the machine stalled", 1);
        }
        for (k, v) in &keep {
            if s.get(k).map(|x| &x.0) != Some(v) && t0.elapsed() > sent + Duration::from_millis(300) {
                return ctx.violation(
                    "a follower lost a key because of a deadline it no longer has",
                    &format!("{}: {:?}\n{}", esc(k), s.get(k), a.log()),
                );
            }
        }
        for (k, at) in &dead {
            if s.get(k).is_some() && asked > at + GRACE {
                return ctx.violation(
                    "an expired key stays stored on a follower",
                    &format!("{} deadline {}, still stored {} ms later", esc(k), at, asked - at),
                );
            }
        }
        if asked > end || dead.keys().all(|k| s.get(k).is_none()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    for k in dead.keys() {
        ctx.eval(k);
    }
    ctx.count("keys reclaimed on followers", dead.len() as u64);
    ctx.count("keys kept on followers", keep.len() as u64);
}

/// deadlines which a follower no longer has do not pile up (C12)
pub fn churn(ctx: &Ctx, r: &mut Rng) {
    let a = FakeOwner(Fake::start(1, 0));
    let a = &a.0;
    let pd = FakePd::start(follower_of(a));
    let srv = match Server::start(&ctx.bins, &Opts { pd: Some((pd.addr, 1)), ..Default::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.inconclusive(&e),
    };
    if !wait_until(Duration::from_secs(15), || a.sh.full.load(Ordering::SeqCst) > 0 && wire::snapshot(srv.addr, 0).is_ok()) {
        return ctx.inconclusive("the follower takes no snapshot");
    }
    std::thread::sleep(Duration::from_millis(300));
    let far = now_ms() + 10 * DAY;
    let tag = format!("t{}", r.below(1_000_000));
    let slot = key_slot(tag.as_bytes());
    let keys: Vec<Vec<u8>> = (0..20).map(|i| format!("{{{}}}a rather long key name, number {}", tag, i).into_bytes()).collect();
    let (mut n, mut id) = (0u64, 0u64);
    let held = |id: u64| wire::snapshot(srv.addr, slot).map_or(false, |s| s.slots.get(&slot).map_or(false, |s| s.write_id == id));
    let names =
        ["deleted and set again", "changed by commands", "overwritten", "gone with the last element of their keys", "flushed", "replaced by snapshots"];
    let first = r.below(names.len());
    // every command that can take the last element of a key away, on its own
    let long: Vec<Vec<u8>> = (0..20).map(|i| format!("{{{}}}{}{}", tag, "key ".repeat(100), i).into_bytes()).collect();
    for (make, take) in crate::reclaim::LAST {
        let mut sizes = vec![];
        loop {
            sizes.push(srv.rss_kb());
            let l = sizes.len();
            if l > 2 && sizes[l - 1] < sizes[l - 2] + 2_500 {
                break;
            }
            if l == 6 {
                let by = take.split(' ').next().unwrap_or("");
                let what = format!("the memory of a follower grows without bound while keys with a deadline go away by {}", by);
                return ctx.violation(&what, &format!("{}; PEXPIREAT; {}\nkB: {:?}", make, take, sizes));
            }
            let mut bytes = vec![];
            for _ in 0..15_000 {
                n += 1;
                let k = &long[n as usize % long.len()];
                let at = (far + n).to_string().into_bytes();
                for cmd in [crate::reclaim::of_key(make, k), vec![b("pexpireat"), k.clone(), at], crate::reclaim::of_key(take, k)] {
                    id += 1;
                    bytes.extend(wire::encode_msg(&Msg { id, slot, cmd: WCmd::Cmd(cmd) }));
                }
            }
            a.send(&bytes);
            if !wait_until(Duration::from_secs(20), || held(id)) {
                return ctx.inconclusive("a follower does not keep up with its leader");
            }
            ctx.count("keys with a deadline whose last element was taken on a follower", 15_000);
        }
        ctx.eval(format!("follower gone {}", take).as_bytes());
    }
    for way in 0..names.len() {
        let way = (way + first) % names.len();
        let name = names[way];
        let mut grew = 0;
        let mut sizes = vec![];
        for round in 0..5 {
            let size = srv.rss_kb();
            sizes.push(size);
            if round > 1 {
                if size < sizes[round - 1] + 3_000 {
                    break;
                }
                grew += 1;
                if grew == 3 {
                    let what = format!("the memory of a follower grows without bound while the deadlines of a few keys are {}", name);
                    return ctx.violation(&what, &format!("kB: {:?}", sizes));
                }
            }
            for _ in 0..6 {
                let mut bytes = vec![];
                if way == 5 {
                    // the stream has a gap: the slot is fetched again, its keys have other deadlines
                    id += 1;
                    let mut m = Model::new();
                    for i in 0..10_000 {
                        n += 1;
                        let k = format!("{{{}}}a rather long key name, number {}", tag, i).into_bytes();
                        m.map.insert(k, Entry { val: Val::Str(b("v")), exp: far + n });
                    }
                    let states = vec![data_of(&m)];
                    a.sh.slots.lock().unwrap().insert(slot, Hist { m, base: id, states });
                    a.send(&wire::encode_msg(&Msg { id: id + 1, slot, cmd: WCmd::None }));
                    id += 1;
                    if !wait_until(Duration::from_secs(20), || held(id)) {
                        return ctx.inconclusive("a follower does not fetch a slot again");
                    }
                    continue;
                }
                let mut put = |cmd: WCmd| {
                    id += 1;
                    bytes.extend(wire::encode_msg(&Msg { id, slot, cmd }));
                };
                for _ in 0..10_000 {
                    n += 1;
                    let k = r.pick(&keys).clone();
                    let at = (far + n).to_string().into_bytes();
                    let set = WCmd::Cmd(vec![b("set"), k.clone(), b("v"), b("pxat"), at.clone()]);
                    match way {
                        0 => {
                            put(set);
                            put(WCmd::Cmd(vec![b("del"), k]));
                        }
                        1 if n % 10 == 1 => put(set),
                        1 => put(WCmd::Cmd(vec![b("pexpireat"), k, at])),
                        2 if n % 3 == 0 => put(WCmd::Cmd(vec![b("set"), k, b("v")])),
                        2 if n % 4 == 0 => put(WCmd::Put(k, Val::Str(b("v")), far + n, false)),
                        2 => put(set),
                        3 => {
                            let k = [k, b("l")].concat();
                            put(WCmd::Cmd(vec![b("rpush"), k.clone(), b("v")]));
                            put(WCmd::Cmd(vec![b("pexpireat"), k.clone(), at]));
                            put(WCmd::Cmd(vec![b("lpop"), k, b("1")]));
                        }
                        _ => {
                            put(set);
                            if n % 20 == 0 {
                                put(WCmd::Flush);
                            }
                        }
                    }
                }
                a.send(&bytes);
            }
            if !wait_until(Duration::from_secs(20), || held(id)) {
                return ctx.inconclusive("a follower does not keep up with its leader");
            }
            std::thread::sleep(Duration::from_millis(200));
            ctx.count("deadlines changed or dropped on a few keys of a follower", 60_000);
        }
        ctx.eval(format!("follower churn {} {}", name, n).as_bytes());
        ctx.max("memory of a follower whose deadlines change, kB", *sizes.last().unwrap());
    }
}
