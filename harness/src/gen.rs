//! Command generators. Keys are indexes so that a sequence can be replayed on fresh keys.
use crate::model::*;
use crate::util::*;
use crate::wire;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Key(usize),
    B(Vec<u8>),
}

pub type GCmd = Vec<Arg>;

/// the name of key `i` of a sequence
pub fn key_name(prefix: &str, i: usize) -> Vec<u8> {
    match i % 5 {
        0 => format!("{}a{}", prefix, i).into_bytes(),
        1 => format!("{{t}}{}b{}", prefix, i).into_bytes(),
        2 => [prefix.as_bytes(), b"\x00\xff\r\n ", i.to_string().as_bytes()].concat(),
        3 => format!("{{t}}{}c{}", prefix, i).into_bytes(),
        _ => format!("{}d{{}}{}", prefix, i).into_bytes(),
    }
}

pub fn render(c: &GCmd, prefix: &str) -> Vec<Vec<u8>> {
    c.iter()
        .map(|a| match a {
            Arg::Key(i) => key_name(prefix, *i),
            Arg::B(v) => v.clone(),
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    Str,
    List,
    Hash,
    Set,
    Zset,
    /// types mixed, invalid arguments, emptied collections
    Mixed,
    /// deadlines, frozen clock
    Timed,
    /// expiry options
    Expiry,
}

pub struct Gen {
    pub r: Rng,
    pub keys: usize,
    /// start instant of the sequence, ms
    pub now: u64,
    /// how many different members, if many: long argument lists, large collections
    pub wide: usize,
}

fn s(v: &str) -> Arg {
    Arg::B(b(v))
}
fn n(v: i64) -> Arg {
    Arg::B(v.to_string().into_bytes())
}

const BIG: [i64; 10] = [
    i64::MAX,
    i64::MIN,
    i64::MAX - 1,
    i64::MIN + 1,
    1 << 62,
    -(1 << 62),
    1 << 31,
    -(1 << 31),
    4_294_967_296,
    9_007_199_254_740_993,
];
const NOTINT: [&str; 12] =
    ["", "abc", "1.5", "9223372036854775808", "-9223372036854775809", "1e3", "1 ", " 1", "1a", "0x10", "--1", "12\n"];

const STRANGE: [&str; 20] = [
    "3.25", "007", "-007", "+5", "-0", "+0", " 5", "5 ", "5\n", "\t5", "1e3", "0x10", "1_000", "9223372036854775808", "-9223372036854775809", "٣",
    "3.0", "inf", "nan", "00",
];

impl Gen {
    pub fn new(r: Rng, keys: usize, now: u64) -> Gen {
        Gen { r, keys, now, wide: 0 }
    }
    /// how many elements a command gets: mostly 1 to `max`, now and then many
    fn count(&mut self, max: usize) -> usize {
        if self.wide > 0 && self.r.chance(1, 4) {
            return 1 + self.r.below(self.wide / 4);
        }
        if self.r.chance(1, 40) {
            return 1 + self.r.below(24);
        }
        1 + self.r.below(max)
    }
    pub fn key(&mut self) -> Arg {
        let k = self.keys;
        Arg::Key(self.r.below(k))
    }
    /// a value from a small pool, sometimes a strange one
    pub fn value(&mut self) -> Vec<u8> {
        if self.wide > 0 && self.r.chance(3, 4) {
            return format!("w{}", self.r.below(self.wide)).into_bytes();
        }
        match self.r.below(20) {
            0 => vec![],
            1 => {
                let n = self.r.below(40);
                self.r.bytes(n)
            }
            2 => b("a\r\nb"),
            3 => b("+OK\r\n$-1\r\n"),
            4 => {
                let n = 200 + self.r.below(self.wide);
                self.r.bytes(n)
            }
            5 => b("\x00"),
            6..=9 => self.r.range(-20, 20).to_string().into_bytes(),
            10 => self.r.pick(&BIG).to_string().into_bytes(),
            // looks like a number, but is a text: nothing may change
            11 => b(self.r.pick(&STRANGE)),
            12 => "héé\u{1F600}".as_bytes().to_vec(),
            _ => format!("v{}", self.r.below(9)).into_bytes(),
        }
    }
    pub fn member(&mut self) -> Vec<u8> {
        if self.wide > 0 && self.r.chance(7, 8) {
            return format!("w{}", self.r.below(self.wide)).into_bytes();
        }
        match self.r.below(16) {
            0 => vec![],
            1 => b("m\r\n1"),
            2 => vec![0xff, 0x00],
            3 => b("M1"),
            4 => b("m10"),
            5 => b("m1\x00"),
            6 => {
                let n = 100 + self.r.below(200);
                vec![b'z'; n]
            }
            _ => format!("m{}", self.r.below(8)).into_bytes(),
        }
    }
    fn members(&mut self, max: usize) -> Vec<Arg> {
        let k = self.count(max);
        (0..k).map(|_| Arg::B(self.member())).collect()
    }
    fn values(&mut self, max: usize) -> Vec<Arg> {
        let k = self.count(max);
        (0..k).map(|_| Arg::B(self.value())).collect()
    }
    fn delta(&mut self) -> Arg {
        match self.r.below(10) {
            0 => n(*self.r.pick(&BIG)),
            1 => n(0),
            2 => {
                let d = self.r.range(-3, 3);
                n(i64::MAX - d.abs())
            }
            _ => n(self.r.range(-100, 100)),
        }
    }
    fn bad_int(&mut self) -> Arg {
        s(self.r.pick(&NOTINT))
    }
    pub fn index(&mut self) -> Arg {
        if self.wide > 0 && self.r.chance(1, 2) {
            let w = self.wide as i64 / 2;
            return n(self.r.range(-w, w));
        }
        match self.r.below(12) {
            0 => n(*self.r.pick(&BIG)),
            1 => n(-1),
            2 => n(0),
            _ => n(self.r.range(-12, 12)),
        }
    }
    pub fn score(&mut self) -> Arg {
        if self.wide > 0 && self.r.chance(3, 4) {
            return n(self.r.range(-300, 300));
        }
        let v = match self.r.below(26) {
            24 => b("-0"),
            25 => b("-0.0"),
            0 => b("inf"),
            1 => b("-inf"),
            2 => b("1e308"),
            3 => b("-1e308"),
            4 => b("5e-324"),
            5 => b("0"),
            6 => b("9007199254740993"),
            7 => b("+inf"),
            8..=11 => format!("{}.5", self.r.range(-4, 4)).into_bytes(),
            12 => b("1.0000000000000002"),
            _ => self.r.range(-4, 6).to_string().into_bytes(),
        };
        Arg::B(v)
    }
    fn score_bound(&mut self) -> Arg {
        match self.r.below(6) {
            0 => s("-inf"),
            1 => s("+inf"),
            2 | 3 => {
                let a = self.score();
                match a {
                    Arg::B(v) => Arg::B([b("("), v].concat()),
                    a => a,
                }
            }
            _ => self.score(),
        }
    }
    fn lex_bound(&mut self) -> Arg {
        match self.r.below(6) {
            0 => s("-"),
            1 => s("+"),
            k => {
                // bounds are texts
                let m = match self.r.below(5) {
                    0 => b(""),
                    1 => b("m"),
                    2 => b("M1"),
                    _ if self.wide > 0 => format!("w{}", self.r.below(self.wide)).into_bytes(),
                    _ => format!("m{}", self.r.below(9)).into_bytes(),
                };
                Arg::B([b(if k < 4 { "[" } else { "(" }), m].concat())
            }
        }
    }
    fn limit(&mut self, c: &mut GCmd) {
        if self.r.chance(1, 3) {
            c.push(s("LIMIT"));
            c.push(n(if self.r.chance(1, 12) { i64::MAX } else { self.r.range(0, if self.wide > 0 { self.wide as i64 / 8 } else { 6 }) }));
            c.push(n(match self.r.below(6) {
                0 => -1,
                1 => 0,
                2 => i64::MAX,
                _ if self.wide > 0 => self.r.range(1, self.wide as i64 / 8),
                _ => self.r.range(1, 5),
            }));
        }
    }

    /// makes a collection of thousands of elements
    pub fn large(&mut self, fam: Fam) -> Option<GCmd> {
        let name = match fam {
            Fam::List => *self.r.pick(&["rpush", "lpush"]),
            Fam::Hash => "hset",
            Fam::Set => "sadd",
            Fam::Zset => "zadd",
            _ => return None,
        };
        let mut c = vec![s(name), Arg::Key(0)];
        let n = 4000 + self.r.below(6000);
        let same = self.r.chance(1, 3);
        for i in 0..n {
            match fam {
                Fam::Zset if same => c.push(s("1")),
                Fam::Zset => c.push(self.score()),
                _ => (),
            }
            c.push(Arg::B(format!("w{}", i).into_bytes()));
            if fam == Fam::Hash {
                c.push(Arg::B(self.value()));
            }
        }
        Some(c)
    }

    pub fn strings(&mut self) -> GCmd {
        let k = self.key();
        match self.r.below(20) {
            0..=6 => {
                let mut c = vec![s("set"), k, Arg::B(self.value())];
                let mut o: Vec<Vec<Arg>> = vec![];
                match self.r.below(8) {
                    0 | 1 => o.push(vec![s("NX")]),
                    2 => o.push(vec![s("xx")]),
                    _ => (),
                }
                if self.r.chance(1, 3) {
                    o.push(vec![s(if self.r.chance(1, 2) { "GET" } else { "get" })]);
                }
                match self.r.below(10) {
                    0 | 1 => o.push(vec![s("KEEPTTL")]),
                    2 => o.push(vec![s("EX"), n(self.r.range(1000, 5000))]),
                    3 => o.push(vec![s("px"), n(self.r.range(1_000_000, 5_000_000))]),
                    4 if self.r.chance(1, 3) => o.push(vec![s("EX"), n(self.r.range(-3, 0))]),
                    _ => (),
                }
                while !o.is_empty() {
                    let i = self.r.below(o.len());
                    c.extend(o.remove(i));
                }
                c
            }
            7..=9 => vec![s("get"), k],
            10 => vec![s("incr"), k],
            11 => vec![s("DECR"), k],
            12 => vec![s("incrby"), k, self.delta()],
            13 => vec![s("decrby"), k, self.delta()],
            14 => vec![s("setex"), k, n(self.r.range(1000, 9000)), Arg::B(self.value())],
            15 => vec![s("psetex"), k, n(self.r.range(1_000_000, 9_000_000)), Arg::B(self.value())],
            16 => {
                let mut c = vec![s("del"), k];
                while self.r.chance(1, 2) {
                    c.push(self.key());
                }
                c
            }
            17 => {
                let mut c = vec![s("exists"), k];
                while self.r.chance(1, 2) {
                    c.push(self.key());
                }
                c
            }
            18 => {
                let d = self.bad_int();
                vec![s(*self.r.pick(&["incrby", "decrby"])), k, d]
            }
            // counters near the limits
            _ => vec![s("set"), k, n(*self.r.pick(&BIG))],
        }
    }
    pub fn lists(&mut self) -> GCmd {
        let k = self.key();
        match self.r.below(16) {
            0..=4 => [vec![s(*self.r.pick(&["lpush", "rpush"])), k], self.values(5)].concat(),
            5 => [vec![s(*self.r.pick(&["lpushx", "rpushx"])), k], self.values(3)].concat(),
            6..=7 => vec![s(*self.r.pick(&["lpop", "rpop"])), k],
            8..=9 => {
                let c = match self.r.below(8) {
                    0 => 0,
                    1 => i64::MAX,
                    2 => -1,
                    3 => 1000,
                    _ if self.wide > 0 => self.r.range(1, self.wide as i64 / 5),
                    4 => *self.r.pick(&[4_294_967_296, 4_294_967_297, 4_294_967_298, 65_537]),
                    _ => self.r.range(1, 4),
                };
                vec![s(*self.r.pick(&["lpop", "rpop"])), k, n(c)]
            }
            10..=13 => vec![s("lrange"), k, self.index(), self.index()],
            14 => vec![s("llen"), k],
            _ => match self.r.below(6) {
                0 => vec![s("lrange"), k, self.bad_int(), n(1)],
                1 => vec![s("del"), k],
                _ => vec![s("lrange"), k, n(0), n(-1)],
            },
        }
    }
    pub fn hashes(&mut self) -> GCmd {
        let k = self.key();
        match self.r.below(18) {
            0..=4 => {
                let mut c = vec![s("hset"), k];
                for _ in 0..self.count(4) {
                    c.push(Arg::B(self.member()));
                    c.push(Arg::B(self.value()));
                }
                c
            }
            5..=6 => vec![s("hsetnx"), k, Arg::B(self.member()), Arg::B(self.value())],
            7..=8 => vec![s("hget"), k, Arg::B(self.member())],
            9 => [vec![s("hmget"), k], self.members(5)].concat(),
            10 => vec![s("hgetall"), k],
            11 => vec![s("hexists"), k, Arg::B(self.member())],
            12..=13 => [vec![s("hdel"), k], self.members(5)].concat(),
            14..=15 => vec![s("hincrby"), k, Arg::B(self.member()), self.delta()],
            16 => {
                let v = self.r.pick(&BIG).to_string().into_bytes();
                vec![s("hset"), k, Arg::B(self.member()), Arg::B(v)]
            }
            _ => match self.r.below(3) {
                0 => vec![s("hincrby"), k, Arg::B(self.member()), self.bad_int()],
                1 => vec![s("del"), k],
                // a field without value
                _ => vec![s("hset"), k, Arg::B(self.member())],
            },
        }
    }
    pub fn sets(&mut self) -> GCmd {
        let k = self.key();
        match self.r.below(12) {
            0..=4 => [vec![s("sadd"), k], self.members(6)].concat(),
            5..=7 => [vec![s("srem"), k], self.members(5)].concat(),
            8 => vec![s("sismember"), k, Arg::B(self.member())],
            9 => [vec![s("smismember"), k], self.members(6)].concat(),
            10 => vec![s("smembers"), k],
            _ => vec![s(*self.r.pick(&["del", "smembers", "smembers"])), k],
        }
    }
    pub fn zsets(&mut self) -> GCmd {
        let k = self.key();
        match self.r.below(40) {
            0..=11 => {
                let mut c = vec![s("zadd"), k];
                let mut o = vec![];
                let nx = self.r.below(7);
                match nx {
                    0 => o.push(s("NX")),
                    1 => o.push(s("XX")),
                    _ => (),
                }
                if nx != 0 {
                    match self.r.below(7) {
                        0 => o.push(s("GT")),
                        1 => o.push(s("LT")),
                        _ => (),
                    }
                }
                if self.r.chance(1, 5) {
                    o.push(s("CH"));
                }
                let incr = self.r.chance(1, 7);
                if incr {
                    o.push(s("INCR"));
                }
                while !o.is_empty() {
                    let i = self.r.below(o.len());
                    c.push(o.remove(i));
                }
                // equal scores now and then, for ranges by member
                let same = if self.r.chance(1, 3) { Some(n(1)) } else { None };
                for _ in 0..if incr && self.r.chance(2, 3) { 1 } else { self.count(4) } {
                    c.push(same.clone().unwrap_or_else(|| self.score()));
                    c.push(Arg::B(self.member()));
                }
                c
            }
            12..=13 => [vec![s("zrem"), k], self.members(4)].concat(),
            14..=15 => vec![s(*self.r.pick(&["zrank", "zrevrank"])), k, Arg::B(self.member())],
            16..=20 => {
                let mut c = vec![s(*self.r.pick(&["zrange", "zrevrange"])), k, self.index(), self.index()];
                if c[0] == s("zrange") && self.r.chance(1, 4) {
                    c.push(s("REV"));
                }
                if self.r.chance(1, 2) {
                    c.push(s("WITHSCORES"));
                }
                c
            }
            21..=26 => {
                let mut c =
                    vec![s(*self.r.pick(&["zrangebyscore", "zrevrangebyscore"])), k, self.score_bound(), self.score_bound()];
                if self.r.chance(1, 2) {
                    c.push(s("withscores"));
                }
                self.limit(&mut c);
                c
            }
            27..=28 => {
                let mut c = vec![s("zrange"), k, self.score_bound(), self.score_bound(), s("BYSCORE")];
                if self.r.chance(1, 2) {
                    c.push(s("REV"));
                }
                self.limit(&mut c);
                if self.r.chance(1, 2) {
                    c.push(s("WITHSCORES"));
                }
                c
            }
            29..=32 => {
                let mut c = vec![s(*self.r.pick(&["zrangebylex", "zrevrangebylex"])), k, self.lex_bound(), self.lex_bound()];
                self.limit(&mut c);
                c
            }
            33 => {
                let mut c = vec![s("zrange"), k, self.lex_bound(), self.lex_bound(), s("BYLEX")];
                if self.r.chance(1, 2) {
                    c.push(s("REV"));
                }
                self.limit(&mut c);
                c
            }
            34 => vec![s("zremrangebyrank"), k, self.index(), self.index()],
            35 => vec![s("zremrangebyscore"), k, self.score_bound(), self.score_bound()],
            36 => vec![s("zremrangebylex"), k, self.lex_bound(), self.lex_bound()],
            37 => vec![s("zadd"), k, s(*self.r.pick(&["nan", "abc", "", "1,5"])), Arg::B(self.member())],
            38 => vec![s(*self.r.pick(&["zrangebyscore", "zremrangebyscore"])), k, s("nan"), s("1")],
            // only members with equal scores
            _ => {
                let mut c = vec![s("zadd"), k];
                for i in 0..3 + self.r.below(5) {
                    c.push(n(1));
                    c.push(s(&format!("m{}", i)));
                }
                c
            }
        }
    }
    fn malformed(&mut self) -> GCmd {
        let k = self.key();
        match self.r.below(20) {
            // the last pair is not complete
            14 => vec![s("hset"), k, s("m1"), s("v"), s("m2")],
            15 => vec![s("zadd"), k, s("1"), s("m1"), s("2")],
            16 => vec![s("zadd"), k, s("NX")],
            17 => vec![s("zadd"), k, s("INCR"), s("inf"), s("m1"), s("1"), s("m2"), s("-inf"), s("m1")],
            18 => vec![s(*self.r.pick(&["sadd", "srem", "rpush", "lpush", "zrem", "hdel", "hmget", "hsetnx", "setex", "zremrangebyrank"])), k],
            19 => vec![s("set"), k, s("v"), s(*self.r.pick(&["EX", "PX", "EXAT", "PXAT"]))],
            0 => vec![s("get")],
            1 => vec![s("set"), k],
            2 => vec![s("nosuchcommand"), k, s("x")],
            3 => vec![s("expire"), k, self.bad_int()],
            4 => vec![s("setex"), k, n(0), s("v")],
            5 => vec![s("psetex"), k, self.bad_int(), s("v")],
            6 => vec![s("hset"), k],
            7 => vec![s("zadd"), k, s("1")],
            8 => vec![s("incrby"), k],
            9 => vec![s("zadd"), k, s("1"), s("m1"), s("x"), s("m2")],
            10 => vec![s("restore"), k, n(0), s("garbage"), s("REPLACE")],
            11 => vec![s("zadd"), k, s("INCR"), s("-inf"), s("m1"), s("+inf"), s("m1")],
            12 => vec![s("set"), k, s("v"), s("EX"), self.bad_int()],
            _ => vec![s("lpop"), k, self.bad_int()],
        }
    }
    pub fn mixed(&mut self) -> GCmd {
        match self.r.below(22) {
            0..=2 => self.strings(),
            3..=5 => self.lists(),
            6..=8 => self.hashes(),
            9..=11 => self.sets(),
            12..=14 => self.zsets(),
            15 => self.malformed(),
            16 => {
                let k = self.key();
                vec![s("restore"), k, n(self.r.range(0, 1) * 1_000_000), Arg::B(self.payload())]
            }
            17 => vec![s("set"), self.key(), s("v"), s("GET")],
            // empty the collections
            18 => vec![s("lpop"), self.key(), n(1000)],
            19 => vec![s("zremrangebyrank"), self.key(), n(0), n(-1)],
            20 => {
                let mut c = vec![s(*self.r.pick(&["srem", "hdel", "zrem"])), self.key()];
                for m in ["", "m\r\n1", "M1", "m10", "m1\x00", "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"] {
                    c.push(s(m));
                }
                c.push(Arg::B(vec![0xff, 0x00]));
                c
            }
            _ => vec![s("zremrangebyscore"), self.key(), s("-inf"), s("+inf")],
        }
    }
    pub fn val(&mut self) -> Val {
        match self.r.below(5) {
            0 => Val::Str(self.value()),
            1 => {
                let k = self.count(5);
                Val::List((0..k).map(|_| self.value()).collect::<VecDeque<_>>())
            }
            2 => {
                let k = self.count(5);
                Val::Hash((0..k).map(|_| (self.member(), self.value())).collect::<BTreeMap<_, _>>())
            }
            3 => {
                let k = self.count(5);
                Val::Set((0..k).map(|_| self.member()).collect::<BTreeSet<_>>())
            }
            _ => {
                let k = self.count(5);
                Val::Zset((0..k).map(|_| (self.member(), self.r.range(-4, 4) as f64 / 2.0)).collect::<BTreeMap<_, _>>())
            }
        }
    }
    pub fn payload(&mut self) -> Vec<u8> {
        let v = self.val();
        wire::payload(&v)
    }
    fn opts(&mut self) -> Vec<Arg> {
        let mut v = vec![];
        // conditions which contradict each other are not generated
        match self.r.below(9) {
            0 => v.push(s("NX")),
            1 => v.push(s("XX")),
            2 => v.push(s("GT")),
            3 => v.push(s("LT")),
            4 => v.extend([s("xx"), s("gt")]),
            5 => v.extend([s("XX"), s("LT")]),
            _ => (),
        }
        v
    }
    /// a duration in ms: near, far, past
    fn dur(&mut self) -> i64 {
        match self.r.below(12) {
            0 => 1,
            1 => 2,
            2 => 999,
            3 => 1000,
            4 => 0,
            5 => -self.r.range(1, 5000),
            6 => self.r.range(100_000, 900_000_000_000),
            _ => self.r.range(3, 5000),
        }
    }
    fn extreme(&mut self) -> i64 {
        let d = self.r.range(-2000, 2000);
        match self.r.below(8) {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => i64::MAX / 1000 + d,
            3 => i64::MIN / 1000 + d,
            4 => i64::MAX - self.now as i64 + d,
            5 => i64::MIN + 1,
            6 => i64::MAX / 1000 - self.now as i64 / 1000 + d,
            _ => 18_446_744_073_709_551 + d,
        }
    }
    pub fn expiry(&mut self) -> GCmd {
        let k = self.key();
        let now = self.now as i64;
        match self.r.below(20) {
            0..=7 => {
                let ext = self.r.chance(1, 8);
                let (name, t) = match self.r.below(4) {
                    0 => ("expire", if self.r.chance(1, 2) { self.r.range(-1, 6) } else { self.r.range(1, 900_000_000) }),
                    1 => ("pexpire", self.dur()),
                    2 => ("EXPIREAT", now / 1000 + self.r.range(-2, 6)),
                    _ => ("pexpireat", now + self.dur()),
                };
                let t = if ext { self.extreme() } else { t };
                let mut c = vec![s(name), k, n(t)];
                if self.r.chance(1, 24) {
                    c[2] = self.bad_int();
                }
                c.extend(self.opts());
                c
            }
            8..=9 => vec![s(*self.r.pick(&["ttl", "pttl", "pttl"])), k],
            10..=12 => {
                let mut c = vec![s("set"), k, Arg::B(self.value())];
                match self.r.below(8) {
                    0 => c.extend([s("EX"), n(self.r.range(1, 5))]),
                    1 => c.extend([s("PX"), n(self.dur())]),
                    2 => c.extend([s("EXAT"), n(now / 1000 + self.r.range(-2, 6))]),
                    3 => c.extend([s("pxat"), n(now + self.dur())]),
                    4..=5 => c.push(s("KEEPTTL")),
                    6 => c.extend([s(*self.r.pick(&["EX", "PX", "EXAT", "PXAT"])), n(self.extreme())]),
                    _ => (),
                }
                match self.r.below(6) {
                    0 => c.push(s("NX")),
                    1 => c.push(s("XX")),
                    2 => c.push(s("GET")),
                    _ => (),
                }
                c
            }
            13 => vec![s("setex"), k, n(if self.r.chance(1, 4) { self.extreme() } else { self.r.range(-1, 5) }), s("v")],
            14 => vec![s("psetex"), k, n(if self.r.chance(1, 4) { self.extreme() } else { self.dur() }), s("v")],
            15..=16 => {
                let abs = self.r.chance(1, 3);
                let t = match self.r.below(6) {
                    0 => 0,
                    1 => self.extreme(),
                    _ if abs => now + self.dur(),
                    _ => self.dur(),
                };
                let mut c = vec![s("restore"), k, n(t), Arg::B(self.payload())];
                if self.r.chance(2, 3) {
                    c.push(s("REPLACE"));
                }
                if abs {
                    c.push(s("ABSTTL"));
                }
                if self.r.chance(1, 5) {
                    c.extend([s("IDLETIME"), n(self.r.range(0, 1000))]);
                }
                if self.r.chance(1, 5) {
                    c.extend([s("FREQ"), n(self.r.range(0, 255))]);
                }
                c
            }
            17 => vec![s("dump"), k],
            // in place changes keep the deadline
            _ => match self.r.below(13) {
                // through zero and back
                6 => vec![s("incrby"), k, n(self.r.range(-2, 2))],
                7 => vec![s("decr"), k],
                8 | 9 => vec![s("hincrby"), k, s("n"), n(self.r.range(-2, 2))],
                10 => vec![s("zadd"), k, s("INCR"), n(self.r.range(-2, 2)), s("m1")],
                11 => vec![s("lpush"), k, Arg::B(self.value()), Arg::B(self.value())],
                12 => match self.r.below(4) {
                    0 => vec![s("srem"), k, Arg::B(self.member())],
                    1 => vec![s("hdel"), k, Arg::B(self.member())],
                    2 => vec![s("zrem"), k, Arg::B(self.member())],
                    _ => vec![s("lpop"), k],
                },
                0 => vec![s("incr"), k],
                1 => vec![s("rpush"), k, Arg::B(self.value())],
                2 => vec![s("hset"), k, Arg::B(self.member()), Arg::B(self.value())],
                3 => vec![s("sadd"), k, Arg::B(self.member())],
                4 => vec![s("zadd"), k, n(1), Arg::B(self.member())],
                _ => vec![s("del"), k],
            },
        }
    }
    pub fn clock(&mut self) -> GCmd {
        match self.r.below(3) {
            0 => vec![s("@adv"), n(self.r.range(1, 1500))],
            _ => vec![s("@to"), self.key(), n(*self.r.pick(&[-1, 0, 0, 0, 1, 1, 700]))],
        }
    }
    pub fn timed(&mut self) -> GCmd {
        match self.r.below(20) {
            0..=6 => self.clock(),
            7..=12 => {
                // short deadlines on whatever there is
                if self.r.chance(1, 2) {
                    let k = self.key();
                    vec![s("pexpire"), k, n(self.r.range(1, 3000))]
                } else {
                    self.expiry()
                }
            }
            13 => {
                let k = self.key();
                match self.r.below(6) {
                    0 => vec![s("dump"), k],
                    1 => vec![s("object"), s("IDLETIME"), k],
                    2 => vec![s("object"), s("FREQ"), k],
                    3 => vec![s("debug"), s("object"), k],
                    4 => vec![s("pttl"), k],
                    _ => vec![s("exists"), k, self.key(), self.key()],
                }
            }
            14 => {
                // reads of the right type for an expired key are all "absent"
                let k = self.key();
                let m = Arg::B(self.member());
                match self.r.below(9) {
                    0 => vec![s("get"), k],
                    1 => vec![s("llen"), k],
                    2 => vec![s("hget"), k, m],
                    3 => vec![s("sismember"), k, m],
                    4 => vec![s("zrank"), k, m],
                    5 => vec![s("smembers"), k],
                    6 => vec![s("hgetall"), k],
                    7 => vec![s("zrange"), k, n(0), n(-1)],
                    _ => vec![s("lrange"), k, n(0), n(-1)],
                }
            }
            _ => self.mixed(),
        }
    }
    pub fn cmd(&mut self, f: Fam) -> GCmd {
        match f {
            Fam::Str => self.strings(),
            Fam::List => self.lists(),
            Fam::Hash => self.hashes(),
            Fam::Set => self.sets(),
            Fam::Zset => self.zsets(),
            Fam::Mixed => self.mixed(),
            Fam::Timed => self.timed(),
            Fam::Expiry => {
                if self.r.chance(1, 10) {
                    self.clock()
                } else {
                    self.expiry()
                }
            }
        }
    }
}
