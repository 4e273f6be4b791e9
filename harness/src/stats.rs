//! C26: OBJECT IDLETIME and OBJECT FREQ tell how a key was used.
use crate::conc::start;
use crate::ctx::*;
use crate::model::Val;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire;
use std::collections::BTreeMap;
use std::time::Instant;

type Cmd = Vec<Vec<u8>>;

const MAX: u64 = 65535;
/// resolution of the idle time
const RES: u64 = 10;

#[derive(Clone, Debug)]
struct Use {
    ty: usize,
    /// ms
    last: u64,
    /// minute of the last count
    min: u64,
    freq: u64,
    /// 0: none
    exp: u64,
}

const FRESH: [&str; 9] = [
    "set K 1",
    "rpush K 1 2 3 4",
    "hset K f 1 g 2",
    "sadd K a b c",
    "zadd K 1 a 2 b 3 c",
    "incr K",
    "hincrby K f 3",
    "hsetnx K f 1",
    "lpush K 9",
];
const TYPES: [usize; 9] = [0, 1, 2, 3, 4, 0, 2, 2, 1];
/// commands which use the value and never remove all of it
const USES: [&[&str]; 5] = [
    &["get K", "incr K", "decr K", "incrby K 7", "decrby K 3"],
    &["lrange K 0 -1", "llen K", "lpush K x", "rpush K y z", "lpushx K v", "rpushx K w"],
    &["hget K f", "hget K none", "hmget K f g none", "hgetall K", "hexists K f", "hset K f 2", "hset K h 1", "hsetnx K f 1", "hincrby K n 1", "hdel K h", "hdel K none"],
    &["smembers K", "sismember K a", "sismember K none", "smismember K a none", "sadd K a", "sadd K d", "srem K d", "srem K none"],
    &[
        "zrank K a", "zrevrank K a", "zrange K 0 -1", "zrevrange K 0 0", "zrangebyscore K 0 5", "zrevrangebyscore K 5 0", "zrangebylex K - +", "zrevrangebylex K + -",
        "zadd K 7 d", "zadd K NX 9 a", "zadd K INCR 1 b", "zrem K d", "zrem K none", "zremrangebyscore K 100 200", "zremrangebylex K [zz [zzz", "zremrangebyrank K 100 200",
    ],
];
const ASKS: [&str; 6] = ["object IDLETIME K", "object FREQ K", "ttl K", "pttl K", "object idletime K", "object freq K"];

struct Job<'a> {
    ctx: &'a Ctx,
    srv: Server,
    c: Client,
    r: Rng,
    now: u64,
    /// what every new value starts with
    fresh: Option<u64>,
    log: Vec<String>,
}

fn on(key: &str, t: &str) -> Cmd {
    t.split(' ').map(|w| if w == "K" { b(key) } else { b(w) }).collect()
}

impl Job<'_> {
    fn bad(&self, what: &str, detail: String) {
        let from = self.log.len().saturating_sub(60);
        self.ctx.violation(what, &format!("{}\nlast operations (clock in ms):\n{}\n{}", detail, self.log[from..].join("\n"), self.srv.log_tail()));
    }
    fn set_clock(&mut self, ms: u64) {
        self.now = ms;
        self.srv.clock.as_ref().expect("clock").freeze(ms);
    }
    fn run(&mut self, cmd: &Cmd) -> Out {
        let o = self.c.cmd(cmd);
        self.log.push(format!("{} {} -> {}", self.now, esc_cmd(cmd), o.show()));
        if self.log.len() > 400 {
            self.log.drain(..200);
        }
        if matches!(o, Out::Closed) {
            self.c = self.srv.client();
        }
        o
    }
    fn used(u: &mut Use, now: u64) {
        let passed = (now / 60_000).saturating_sub(u.min);
        u.freq = (u.freq.saturating_sub(passed) + 1).min(MAX);
        u.min = now / 60_000;
        u.last = now;
    }
    /// both statistics of a key; false: violated
    fn judge(&mut self, k: &str, u: Option<&Use>) -> bool {
        let live = u.filter(|u| u.exp == 0 || self.now < u.exp);
        let upper = self.r.chance(1, 2);
        let idle = self.run(&on(k, if upper { "object IDLETIME K" } else { "object idletime K" }));
        let freq = self.run(&on(k, if upper { "object FREQ K" } else { "object freq K" }));
        self.ctx.eval(format!("{:?} {}", live, self.now).as_bytes());
        let u = match live {
            None => {
                self.ctx.count("statistics of absent keys asked", 1);
                if !idle.refused() || !freq.refused() {
                    self.bad("statistics of a key that does not exist", format!("{}: idle {} freq {}", k, idle.show(), freq.show()));
                    return false;
                }
                return true;
            }
            Some(u) => u.clone(),
        };
        self.ctx.count("statistics compared", 1);
        let t = (self.now - u.last) / 1000;
        self.ctx.max("largest idle time compared (s)", t);
        self.ctx.max("largest counter compared", u.freq);
        match idle.int() {
            Some(i) if i >= 0 && i as u64 + RES >= t && i as u64 <= t + RES => (),
            _ => {
                self.bad(&format!("OBJECT IDLETIME answered {} {} s after the last use", idle.show(), t), k.into());
                return false;
            }
        }
        if freq.int() != Some(u.freq as i64) {
            self.bad(&format!("OBJECT FREQ answered {}, expected {}", freq.show(), u.freq), format!("{} {:?}", k, u));
            return false;
        }
        true
    }
    fn create(&mut self, k: &str, keys: &mut BTreeMap<String, Use>) -> bool {
        let i = self.r.below(FRESH.len());
        let del = self.run(&on(k, "del K"));
        let o = self.run(&on(k, FRESH[i]));
        if del.int().is_none() || o.refused() {
            self.ctx.inconclusive(&format!("{} answered {}", FRESH[i], o.show()));
            return false;
        }
        let f = match self.fresh {
            Some(f) => f,
            None => {
                let f = self.run(&on(k, "object freq K")).int().unwrap_or(-1);
                if !(0..=255).contains(&f) {
                    self.bad(&format!("OBJECT FREQ of a new key is {}", f), FRESH[i].into());
                    return false;
                }
                self.fresh = Some(f as u64);
                f as u64
            }
        };
        keys.insert(k.into(), Use { ty: TYPES[i], last: self.now, min: self.now / 60_000, freq: f, exp: 0 });
        true
    }
    fn history(&mut self) -> bool {
        let t = 1_600_000_000_000 + self.r.below(400_000_000_000) as u64;
        self.set_clock(t);
        self.run(&words("flushall"));
        let names: Vec<String> = (0..6).map(|i| format!("k{}", i)).collect();
        let mut keys: BTreeMap<String, Use> = BTreeMap::new();
        for step in 0..260 {
            let k = self.r.pick(&names).clone();
            let live = keys.get(&k).map_or(false, |u| u.exp == 0 || self.now < u.exp);
            match self.r.below(20) {
                0..=2 => {
                    // another moment
                    let d = match self.r.below(9) {
                        0 => self.r.below(2000),
                        1 => 9_999,
                        2 => 10_000,
                        3 => 59_999 + self.r.below(3),
                        4 => self.r.below(60_000),
                        5 => 60_000 * (1 + self.r.below(12)),
                        6 => self.r.below(86_400_000),
                        7 => 300_000,
                        _ => 1 + self.r.below(20),
                    };
                    let now = self.now + d as u64;
                    self.set_clock(now);
                }
                3 | 4 if !live => {
                    if !self.create(&k, &mut keys) {
                        return false;
                    }
                }
                5 if live => {
                    // overwritten: a new value
                    let t = *self.r.pick(&["set K 3", "setex K 100000 3", "set K 4 XX", "psetex K 100000000 4"]);
                    self.run(&on(&k, t));
                    let exp = if t.contains("ex K") { self.now + 100_000_000 } else { 0 };
                    let f = self.fresh.expect("fresh");
                    keys.insert(k, Use { ty: 0, last: self.now, min: self.now / 60_000, freq: f, exp });
                }
                6 => {
                    self.run(&on(&k, "del K"));
                    keys.remove(&k);
                }
                7 => {
                    // restored with statistics
                    let idle = *self.r.pick(&[0u64, 1, 9, 10, 61, 3600, 86_400, 1_000_000, 100_000_000]);
                    let freq = *self.r.pick(&[0u64, 1, 4, 200, 65_530, 65_534, 65_535, 65_536, 1 << 40]);
                    let v = *self.r.pick(&[0, 1]);
                    let val = if v == 0 { Val::Str(b("12")) } else { Val::List([b("a"), b("b")].into()) };
                    let mut cmd = vec![b("restore"), b(&k), b("0"), wire::payload(&val), b("REPLACE")];
                    let (with_idle, with_freq) = (self.r.chance(3, 4), self.r.chance(3, 4));
                    if with_idle {
                        cmd.extend([b("IDLETIME"), idle.to_string().into_bytes()]);
                    }
                    if with_freq {
                        cmd.extend([b("FREQ"), freq.to_string().into_bytes()]);
                    }
                    let o = self.run(&cmd);
                    if !o.is_ok() {
                        self.bad(&format!("RESTORE with statistics answered {}", o.show()), String::new());
                        return false;
                    }
                    let freq = if with_freq { freq.min(MAX) } else { self.run(&on(&k, "object freq K")).int().unwrap_or(-1) as u64 };
                    let last = self.now - if with_idle { idle * 1000 } else { 0 };
                    self.ctx.count("keys restored with statistics", 1);
                    keys.insert(k, Use { ty: v, last, min: self.now / 60_000, freq, exp: 0 });
                }
                8 if live => {
                    let ms = 1 + self.r.below(400_000);
                    let o = self.run(&vec![b("pexpire"), b(&k), ms.to_string().into_bytes()]);
                    let now = self.now;
                    let mut one = keys[&k].clone();
                    // whether that counts as a use is not judged: a use follows
                    let o2 = self.run(&on(&k, USES[one.ty][0]));
                    if o.int() != Some(1) || o2.refused() {
                        self.ctx.inconclusive(&format!("PEXPIRE of a key answered {}, a use {}", o.show(), o2.show()));
                        return false;
                    }
                    Self::used(&mut one, now);
                    let mut two = one.clone();
                    Self::used(&mut two, now);
                    let f = self.run(&on(&k, "object freq K")).int().unwrap_or(-1);
                    if f != one.freq as i64 && f != two.freq as i64 {
                        self.bad(&format!("OBJECT FREQ answered {} after a deadline was set and one use, expected {} or {}", f, one.freq, two.freq), k.clone());
                        return false;
                    }
                    keys.insert(k, Use { freq: f as u64, exp: now + ms as u64, ..one });
                }
                9 => {
                    // asking is no use
                    for _ in 0..1 + self.r.below(5) {
                        let t = *self.r.pick(&ASKS);
                        self.run(&on(&k, t));
                    }
                    self.ctx.count("questions that must not count", 1);
                }
                10 | 11 => {
                    let u = keys.get(&k).cloned();
                    if !self.judge(&k, u.as_ref()) {
                        return false;
                    }
                }
                _ if live => {
                    let ty = keys[&k].ty;
                    let n = if self.r.chance(1, 30) { 300 } else { 1 + self.r.below(4) };
                    let mut cmds: Vec<Cmd> = vec![];
                    for _ in 0..n {
                        let t = *self.r.pick(USES[ty]);
                        cmds.push(on(&k, t));
                    }
                    let outs = self.c.pipeline(&cmds);
                    self.log.push(format!("{} {} uses, the last {}", self.now, n, esc_cmd(&cmds[n - 1])));
                    if outs.len() != n || outs.iter().any(|o| o.refused()) {
                        self.ctx.inconclusive(&format!("a use was refused: {}", outs.last().map_or(String::new(), |o| o.show())));
                        return false;
                    }
                    self.ctx.count("uses", n as u64);
                    let now = self.now;
                    let u = keys.get_mut(&k).expect("key");
                    for _ in 0..n {
                        Self::used(u, now);
                    }
                }
                _ => {
                    // a key that does not exist: created by what comes later
                    if step % 3 == 0 && !self.create(&k, &mut keys) {
                        return false;
                    }
                }
            }
            if self.ctx.violated() {
                return false;
            }
        }
        for k in &names {
            let u = keys.get(k).cloned();
            if !self.judge(k, u.as_ref()) {
                return false;
            }
        }
        self.ctx.count("histories", 1);
        true
    }
    /// the counter ends at its limit, and many clients are counted one by one
    fn storm(&mut self) -> bool {
        let t = self.now + 60_000 * 120;
        self.set_clock(t);
        let base = *self.r.pick(&[0u64, 5, 65_000]);
        let ty = self.r.below(2);
        let val = if ty == 0 { Val::Str(b("12")) } else { Val::List([b("a"), b("b")].into()) };
        let cmd = vec![b("restore"), b("storm"), b("0"), wire::payload(&val), b("REPLACE"), b("FREQ"), base.to_string().into_bytes()];
        if !self.run(&cmd).is_ok() {
            return true;
        }
        let (n, per) = (6usize, 40 + self.r.below(160));
        let uses: Vec<Cmd> = (0..per).map(|_| on("storm", if ty == 0 { *self.r.pick(&["get K", "incr K", "decrby K 2"]) } else { *self.r.pick(&["llen K", "lrange K 0 0", "rpush K x"]) })).collect();
        let srv = &self.srv;
        let uses = &uses;
        let done: usize = par(n, |_| {
            let mut c = srv.client();
            let mut k = 0;
            for u in uses {
                if c.cmd(u).refused() {
                    break;
                }
                k += 1;
            }
            k
        })
        .into_iter()
        .sum();
        if done != n * per {
            self.ctx.inconclusive("a use was refused");
            return false;
        }
        let u = Use { ty, last: self.now, min: self.now / 60_000, freq: (base + done as u64).min(MAX), exp: 0 };
        self.ctx.count("uses by several clients at once", done as u64);
        self.judge("storm", Some(&u))
    }
    /// from nothing to the limit
    fn climb(&mut self) -> bool {
        let t = self.now + 1000;
        self.set_clock(t);
        let mut keys = BTreeMap::new();
        if !self.create("climb", &mut keys) {
            return false;
        }
        let mut u = keys["climb"].clone();
        let n = MAX as usize + 40;
        let cmd = on("climb", USES[u.ty][0]);
        let cmds: Vec<Cmd> = (0..n).map(|_| if u.ty == 1 { on("climb", "llen K") } else { cmd.clone() }).collect();
        for (i, chunk) in cmds.chunks(13_121).enumerate() {
            if self.c.pipeline(chunk).iter().any(|o| o.refused()) {
                self.ctx.inconclusive("a use was refused");
                return false;
            }
            for _ in chunk {
                Self::used(&mut u, self.now);
            }
            self.log.push(format!("{} {} uses, part {}", self.now, chunk.len(), i));
            if !self.judge("climb", Some(&u)) {
                return false;
            }
        }
        self.ctx.count("climbs to the limit", 1);
        // down again after idle days, all the way
        for mins in [7u64, 30_000, 60_000] {
            let t = self.now + mins * 60_000;
            self.set_clock(t);
            if !self.judge("climb", Some(&u)) {
                return false;
            }
            self.run(&on("climb", if u.ty == 1 { "llen K" } else { USES[u.ty][0] }));
            Self::used(&mut u, self.now);
            if !self.judge("climb", Some(&u)) {
                return false;
            }
        }
        // years
        let t = self.now + 10 * 365 * 86_400_000;
        self.set_clock(t);
        let idle = self.run(&on("climb", "object idletime K")).int().unwrap_or(-1);
        let want = 10 * 365 * 86_400;
        if (idle - want).unsigned_abs() > RES {
            self.bad(&format!("OBJECT IDLETIME answered {} after {} s", idle, want), String::new());
            return false;
        }
        true
    }
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("one evaluation: OBJECT IDLETIME and OBJECT FREQ of one key at one instant of the frozen clock compared with the recorded uses of that key; distinct: state and instant differ");
    ctx.assume("a use is a command of the key's type that reads or changes its value; EXISTS, EXPIRE, DUMP and DEBUG may or may not count");
    ctx.assume("the counter of an unused key shows its decay when it is used again; pauses of more than 45 days are only judged by their idle time");
    let until = ctx.deadline(8, 240);
    par(6, |i| {
        let srv = start(ctx, &Opts { clock: true, ..Opts::default() });
        let c = srv.client();
        let mut j = Job { ctx, srv, c, r: ctx.rng(2600 + i as u64), now: 0, fresh: None, log: vec![] };
        let mut round = 0;
        while !ctx.violated() && (round == 0 || Instant::now() < until) {
            let ok = j.history() && j.storm() && (round % 40 != 0 || i > 2 || j.climb());
            if !ok {
                break;
            }
            round += 1;
        }
        let from = j.log.len().saturating_sub(9);
        ctx.sample(j.log[from..].join("; "));
        if j.srv.dead() {
            ctx.violation("the server died", &j.srv.log_tail());
        }
        if let Some(p) = j.srv.panics().first() {
            ctx.violation(&format!("the server panicked: {}", p), &j.srv.log_tail());
        }
    });
}
