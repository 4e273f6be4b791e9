//! Sequential reference model of the commands, from their Redis definitions.
use crate::resp::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(Vec<u8>),
    List(VecDeque<Vec<u8>>),
    Hash(BTreeMap<Vec<u8>, Vec<u8>>),
    Set(BTreeSet<Vec<u8>>),
    Zset(BTreeMap<Vec<u8>, f64>),
}

impl Val {
    pub fn kind(&self) -> &'static str {
        match self {
            Val::Str(_) => "string",
            Val::List(_) => "list",
            Val::Hash(_) => "hash",
            Val::Set(_) => "set",
            Val::Zset(_) => "zset",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Val::Str(s) => format!("string \"{}\"", esc(s)),
            Val::List(l) => format!("list [{}]", l.iter().map(|v| esc(v)).collect::<Vec<_>>().join(", ")),
            Val::Hash(h) => format!(
                "hash {{{}}}",
                h.iter().map(|(k, v)| format!("{}: {}", esc(k), esc(v))).collect::<Vec<_>>().join(", ")
            ),
            Val::Set(s) => format!("set {{{}}}", s.iter().map(|v| esc(v)).collect::<Vec<_>>().join(", ")),
            Val::Zset(z) => format!(
                "zset [{}]",
                zorder(z).iter().map(|(m, s)| format!("{}={}", esc(m), s)).collect::<Vec<_>>().join(", ")
            ),
        }
    }
}

/// deadline which the command can't represent exactly: any far one is right
pub const FAR: u64 = u64::MAX;
pub const FAR_MIN: u64 = 1 << 61;

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub val: Val,
    /// 0: none
    pub exp: u64,
}

#[derive(Clone, Debug)]
pub enum Exp {
    Int(i64),
    IntIn(i64, i64),
    Ok,
    Null,
    Text(Vec<u8>),
    Float(f64),
    Arr(Vec<Exp>),
    /// in any order
    Bag(Vec<Vec<u8>>),
    Pairs(BTreeMap<Vec<u8>, Vec<u8>>),
    Refused,
    /// anything but a refusal
    Accepted,
    /// a DUMP payload of this value and deadline
    Dump(Val, u64),
    /// not judged
    Any,
}

impl Exp {
    pub fn show(&self) -> String {
        match self {
            Exp::Int(i) => format!(":{}", i),
            Exp::IntIn(a, b) => format!(":{}..{}", a, b),
            Exp::Ok => "OK".into(),
            Exp::Null => "nil".into(),
            Exp::Text(t) => format!("\"{}\"", esc(t)),
            Exp::Float(f) => format!("score {}", f),
            Exp::Arr(a) => format!("[{}]", a.iter().map(Exp::show).collect::<Vec<_>>().join(", ")),
            Exp::Bag(b) => format!("any order [{}]", b.iter().map(|v| esc(v)).collect::<Vec<_>>().join(", ")),
            Exp::Pairs(p) => format!(
                "any order {{{}}}",
                p.iter().map(|(k, v)| format!("{}: {}", esc(k), esc(v))).collect::<Vec<_>>().join(", ")
            ),
            Exp::Refused => "a refusal".into(),
            Exp::Accepted => "anything but a refusal".into(),
            Exp::Dump(v, e) => format!("the dump of {} deadline {}", v.show(), e),
            Exp::Any => "anything".into(),
        }
    }
    pub fn fits(&self, r: &Reply) -> bool {
        match self {
            Exp::Int(i) => r.int() == Some(*i),
            Exp::IntIn(a, b) => r.int().map_or(false, |i| i >= *a && i <= *b),
            Exp::Ok => r.is_ok(),
            Exp::Null => *r == Reply::Null,
            Exp::Text(t) => r.text().as_ref() == Some(t),
            Exp::Float(f) => r
                .text()
                .and_then(|t| String::from_utf8(t).ok())
                .and_then(|t| t.parse::<f64>().ok())
                .map_or(false, |g| g == *f),
            Exp::Arr(a) => match r {
                Reply::Arr(v) => v.len() == a.len() && a.iter().zip(v).all(|(e, r)| e.fits(r)),
                Reply::Null => a.is_empty(),
                _ => false,
            },
            Exp::Bag(b) => match r {
                Reply::Arr(v) => {
                    let mut got: Vec<_> = match v.iter().map(Reply::text).collect::<Option<Vec<_>>>() {
                        Some(g) => g,
                        None => return false,
                    };
                    let mut want = b.clone();
                    got.sort();
                    want.sort();
                    got == want
                }
                _ => false,
            },
            Exp::Pairs(p) => match r {
                Reply::Arr(v) => {
                    if v.len() != p.len() * 2 {
                        return false;
                    }
                    let mut got = BTreeMap::new();
                    for c in v.chunks(2) {
                        match (c[0].text(), c[1].text()) {
                            (Some(k), Some(v)) => got.insert(k, v),
                            _ => return false,
                        };
                    }
                    got == *p
                }
                _ => false,
            },
            Exp::Refused => r.is_err(),
            Exp::Dump(v, e) => match r {
                Reply::Bulk(d) => crate::wire::dump_full(d).map_or(false, |(w, f)| w == *v && f == crate::wire::norm_exp(*e)),
                _ => false,
            },
            Exp::Accepted => !r.is_err(),
            Exp::Any => true,
        }
    }
    pub fn ok(&self, o: &Out) -> bool {
        match (self, o) {
            (Exp::Refused, Out::Closed) => true,
            (Exp::Any, Out::Closed) => true,
            (e, Out::Reply(r)) => e.fits(r),
            _ => false,
        }
    }
}

pub fn zorder(z: &BTreeMap<Vec<u8>, f64>) -> Vec<(Vec<u8>, f64)> {
    let mut v: Vec<_> = z.iter().map(|(m, s)| (m.clone(), *s)).collect();
    v.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap().then_with(|| a.0.cmp(&b.0)));
    v
}

pub fn int(b: &[u8]) -> Option<i64> {
    std::str::from_utf8(b).ok()?.parse().ok()
}

fn score(b: &[u8]) -> Option<f64> {
    let f: f64 = std::str::from_utf8(b).ok()?.parse().ok()?;
    if f.is_nan() {
        None
    } else {
        Some(f)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Cond {
    None,
    Nx,
    Xx,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub map: BTreeMap<Vec<u8>, Entry>,
}

enum Deadline {
    At(u64),
    /// beyond what 63 bits hold
    Huge,
}

fn deadline(base: u64, t: i64, unit: i64) -> Deadline {
    let d = i128::from(base) + i128::from(t) * i128::from(unit);
    if d > i128::from(i64::MAX) {
        Deadline::Huge
    } else if d < 1 {
        Deadline::At(1)
    } else {
        Deadline::At(d as u64)
    }
}

fn range(start: i64, stop: i64, len: usize) -> (usize, usize) {
    let len = len as i128;
    let (mut a, mut b) = (i128::from(start), i128::from(stop));
    if a < 0 {
        a += len;
    }
    if b < 0 {
        b += len;
    }
    a = a.max(0);
    b = b.min(len - 1);
    if a > b || a >= len {
        return (0, 0);
    }
    (a as usize, b as usize + 1)
}

#[derive(Clone, Debug)]
pub struct FloatBound(pub f64, pub bool);

fn score_bound(b: &[u8]) -> Option<FloatBound> {
    match b.strip_prefix(b"(") {
        Some(r) => score(r).map(|f| FloatBound(f, false)),
        None => score(b).map(|f| FloatBound(f, true)),
    }
}

fn in_score(min: &FloatBound, max: &FloatBound, s: f64) -> bool {
    (s > min.0 || (min.1 && s == min.0)) && (s < max.0 || (max.1 && s == max.0))
}

enum Lex {
    Min,
    Max,
    Incl(Vec<u8>),
    Excl(Vec<u8>),
}

fn lex_bound(b: &[u8]) -> Option<Lex> {
    match b.first() {
        Some(b'-') if b.len() == 1 => Some(Lex::Min),
        Some(b'+') if b.len() == 1 => Some(Lex::Max),
        Some(b'[') => Some(Lex::Incl(b[1..].to_vec())),
        Some(b'(') => Some(Lex::Excl(b[1..].to_vec())),
        _ => None,
    }
}

fn in_lex(min: &Lex, max: &Lex, m: &[u8]) -> bool {
    (match min {
        Lex::Min => true,
        Lex::Max => false,
        Lex::Incl(b) => m >= &b[..],
        Lex::Excl(b) => m > &b[..],
    }) && (match max {
        Lex::Min => false,
        Lex::Max => true,
        Lex::Incl(b) => m <= &b[..],
        Lex::Excl(b) => m < &b[..],
    })
}

type Sel = Vec<(Vec<u8>, f64)>;

impl Model {
    pub fn new() -> Model {
        Model::default()
    }

    pub fn live(&mut self, key: &[u8], now: u64) -> Option<&mut Entry> {
        if self.map.get(key).map_or(false, |e| e.exp != 0 && e.exp != FAR && e.exp <= now) {
            self.map.remove(key);
        }
        self.map.get_mut(key)
    }

    pub fn purge(&mut self, now: u64) {
        self.map.retain(|_, e| e.exp == 0 || e.exp == FAR || e.exp > now);
    }

    fn drop_empty(&mut self, key: &[u8]) {
        let empty = match self.map.get(key) {
            Some(e) => match &e.val {
                Val::Str(_) => false,
                Val::List(l) => l.is_empty(),
                Val::Hash(h) => h.is_empty(),
                Val::Set(s) => s.is_empty(),
                Val::Zset(z) => z.is_empty(),
            },
            None => false,
        };
        if empty {
            self.map.remove(key);
        }
    }

    /// Apply a command at instant `now`. `out` decides only where the definition leaves a choice.
    /// A refused command changes nothing.
    pub fn apply(&mut self, cmd: &[Vec<u8>], now: u64, out: Option<&Out>) -> Exp {
        match self.try_apply(cmd, now, out) {
            Some(e) => e,
            None => Exp::Refused,
        }
    }

    fn huge(&self, out: Option<&Out>) -> Option<u64> {
        match out {
            Some(o) if o.refused() => None,
            _ => Some(FAR),
        }
    }

    fn try_apply(&mut self, cmd: &[Vec<u8>], now: u64, out: Option<&Out>) -> Option<Exp> {
        let name = String::from_utf8_lossy(cmd.first()?).to_lowercase();
        let a = &cmd[1..];
        for k in a.iter() {
            self.live(k, now);
        }
        let opt = |v: &[u8]| String::from_utf8_lossy(v).to_lowercase();
        macro_rules! key {
            () => {
                a.get(0)?.clone()
            };
        }
        // the existing collection of the wanted type; refused for another type
        macro_rules! coll {
            ($k:expr, $t:path) => {
                match self.map.get_mut(&$k) {
                    Some(Entry { val: $t(c), .. }) => Some(c),
                    Some(_) => return None,
                    None => None,
                }
            };
        }
        macro_rules! coll_or_new {
            ($k:expr, $t:path) => {
                match &mut self
                    .map
                    .entry($k.clone())
                    .or_insert_with(|| Entry { val: $t(Default::default()), exp: 0 })
                    .val
                {
                    $t(c) => c,
                    _ => return None,
                }
            };
        }
        Some(match name.as_str() {
            "ping" => Exp::Text(b("PONG")),
            "get" => {
                let k = key!();
                exact(a, 1)?;
                match coll!(k, Val::Str) {
                    Some(s) => Exp::Text(s.clone()),
                    None => Exp::Null,
                }
            }
            "set" => {
                let k = key!();
                let v = a.get(1)?.clone();
                let (mut cond, mut get, mut keep, mut exp) = (Cond::None, false, false, 0u64);
                let mut i = 2;
                while i < a.len() {
                    match opt(&a[i]).as_str() {
                        "nx" => cond = Cond::Nx,
                        "xx" => cond = Cond::Xx,
                        "get" => get = true,
                        "keepttl" => keep = true,
                        o @ ("ex" | "px" | "exat" | "pxat") => {
                            i += 1;
                            let t = int(a.get(i)?)?;
                            if t <= 0 {
                                return None;
                            }
                            let d = match o {
                                "ex" => deadline(now, t, 1000),
                                "px" => deadline(now, t, 1),
                                "exat" => deadline(0, t, 1000),
                                _ => deadline(0, t, 1),
                            };
                            exp = match d {
                                Deadline::At(d) => d,
                                Deadline::Huge => self.huge(out)?,
                            };
                        }
                        _ => return Some(Exp::Any),
                    }
                    i += 1;
                }
                let old = self.map.get(&k).cloned();
                if get && old.as_ref().map_or(false, |e| !matches!(e.val, Val::Str(_))) {
                    return None;
                }
                let set = match cond {
                    Cond::None => true,
                    Cond::Nx => old.is_none(),
                    Cond::Xx => old.is_some(),
                };
                if set {
                    if keep {
                        exp = old.as_ref().map_or(0, |e| e.exp);
                    }
                    self.map.insert(k.clone(), Entry { val: Val::Str(v), exp });
                    self.live(&k, now);
                }
                if get {
                    match old {
                        Some(Entry { val: Val::Str(s), .. }) => Exp::Text(s),
                        _ => Exp::Null,
                    }
                } else if set {
                    Exp::Ok
                } else {
                    Exp::Null
                }
            }
            "setex" | "psetex" => {
                let k = key!();
                let t = int(a.get(1)?)?;
                let v = exact(a, 3)?[2].clone();
                if t <= 0 {
                    return None;
                }
                let exp = match deadline(now, t, if name == "setex" { 1000 } else { 1 }) {
                    Deadline::At(d) => d,
                    Deadline::Huge => self.huge(out)?,
                };
                self.map.insert(k, Entry { val: Val::Str(v), exp });
                Exp::Ok
            }
            "incr" | "decr" | "incrby" | "decrby" => {
                let k = key!();
                let by: i128 = match name.as_str() {
                    "incr" => 1,
                    "decr" => -1,
                    "incrby" => i128::from(int(a.get(1)?)?),
                    _ => -i128::from(int(a.get(1)?)?),
                };
                if name == "decrby" && by > i128::from(i64::MAX) {
                    return None;
                }
                let old = match coll!(k, Val::Str) {
                    Some(s) => int(s)?,
                    None => 0,
                };
                let new = i64::try_from(i128::from(old) + by).ok()?;
                let e = self.map.entry(k).or_insert(Entry { val: Val::Str(vec![]), exp: 0 });
                e.val = Val::Str(new.to_string().into_bytes());
                Exp::Int(new)
            }
            "del" => {
                let mut n = 0;
                a.get(0)?;
                for k in a {
                    if self.map.remove(k).is_some() {
                        n += 1;
                    }
                }
                Exp::Int(n)
            }
            "exists" => {
                a.get(0)?;
                Exp::Int(a.iter().filter(|k| self.map.contains_key(*k)).count() as i64)
            }
            "expire" | "pexpire" | "expireat" | "pexpireat" => {
                let k = key!();
                let t = int(a.get(1)?)?;
                let (mut nx, mut xx, mut gt, mut lt) = (false, false, false, false);
                for o in &a[2..] {
                    match opt(o).as_str() {
                        "nx" => nx = true,
                        "xx" => xx = true,
                        "gt" => gt = true,
                        "lt" => lt = true,
                        _ => return Some(Exp::Any),
                    }
                }
                let d = match name.as_str() {
                    "expire" => deadline(now, t, 1000),
                    "pexpire" => deadline(now, t, 1),
                    "expireat" => deadline(0, t, 1000),
                    _ => deadline(0, t, 1),
                };
                let new = match d {
                    Deadline::At(d) => d,
                    Deadline::Huge => self.huge(out)?,
                };
                match self.map.get_mut(&k) {
                    None => Exp::Int(0),
                    // among the far deadlines the order is not judged
                    Some(e) if e.exp >= FAR_MIN && new >= FAR_MIN && (gt || lt) && !nx => {
                        e.exp = FAR;
                        Exp::IntIn(0, 1)
                    }
                    Some(e) => {
                        let cur = e.exp;
                        if (nx && cur != 0)
                            || (xx && cur == 0)
                            || (gt && (cur == 0 || new <= cur))
                            || (lt && cur != 0 && new >= cur)
                        {
                            Exp::Int(0)
                        } else {
                            e.exp = new;
                            self.live(&k, now);
                            Exp::Int(1)
                        }
                    }
                }
            }
            "ttl" | "pttl" => {
                let k = key!();
                exact(a, 1)?;
                match self.map.get(&k) {
                    None => Exp::Int(-2),
                    Some(e) if e.exp == 0 => Exp::Int(-1),
                    Some(e) if e.exp == FAR => Exp::IntIn(1 << 40, i64::MAX),
                    Some(e) => {
                        let ms = e.exp - now;
                        Exp::Int(if name == "ttl" { (ms + 500) / 1000 } else { ms } as i64)
                    }
                }
            }
            // lists
            "lpush" | "rpush" => {
                let k = key!();
                a.get(1)?;
                let l = coll_or_new!(k, Val::List);
                for v in &a[1..] {
                    if name == "lpush" {
                        l.push_front(v.clone());
                    } else {
                        l.push_back(v.clone());
                    }
                }
                Exp::Int(l.len() as i64)
            }
            "lpushx" | "rpushx" => {
                let k = key!();
                a.get(1)?;
                match coll!(k, Val::List) {
                    None => Exp::Int(0),
                    Some(l) => {
                        for v in &a[1..] {
                            if name == "lpushx" {
                                l.push_front(v.clone());
                            } else {
                                l.push_back(v.clone());
                            }
                        }
                        Exp::Int(l.len() as i64)
                    }
                }
            }
            "lpop" | "rpop" => {
                let k = key!();
                let n = match a.get(1) {
                    Some(n) => usize::try_from(int(n)?).ok()?,
                    None => 1,
                };
                let mut res = vec![];
                if let Some(l) = coll!(k, Val::List) {
                    for _ in 0..n {
                        match if name == "lpop" { l.pop_front() } else { l.pop_back() } {
                            Some(v) => res.push(Exp::Text(v)),
                            None => break,
                        }
                    }
                }
                self.drop_empty(&k);
                Exp::Arr(res)
            }
            "llen" => {
                let k = key!();
                exact(a, 1)?;
                Exp::Int(coll!(k, Val::List).map_or(0, |l| l.len() as i64))
            }
            "lrange" => {
                let k = key!();
                let (s, e) = (int(a.get(1)?)?, int(&exact(a, 3)?[2])?);
                match coll!(k, Val::List) {
                    None => Exp::Arr(vec![]),
                    Some(l) => {
                        let (s, e) = range(s, e, l.len());
                        Exp::Arr(l.iter().take(e).skip(s).cloned().map(Exp::Text).collect())
                    }
                }
            }
            // hashes
            "hset" => {
                let k = key!();
                if a.len() < 3 || a.len() % 2 == 0 {
                    return None;
                }
                let h = coll_or_new!(k, Val::Hash);
                let mut n = 0;
                for p in a[1..].chunks(2) {
                    if h.insert(p[0].clone(), p[1].clone()).is_none() {
                        n += 1;
                    }
                }
                Exp::Int(n)
            }
            "hsetnx" => {
                let k = key!();
                exact(a, 3)?;
                let h = coll_or_new!(k, Val::Hash);
                if h.contains_key(&a[1]) {
                    Exp::Int(0)
                } else {
                    h.insert(a[1].clone(), a[2].clone());
                    Exp::Int(1)
                }
            }
            "hget" => {
                let k = key!();
                exact(a, 2)?;
                match coll!(k, Val::Hash).and_then(|h| h.get(&a[1])) {
                    Some(v) => Exp::Text(v.clone()),
                    None => Exp::Null,
                }
            }
            "hmget" => {
                let k = key!();
                a.get(1)?;
                let h = coll!(k, Val::Hash).map(|h| &*h);
                Exp::Arr(
                    a[1..]
                        .iter()
                        .map(|f| h.and_then(|h| h.get(f)).map_or(Exp::Null, |v| Exp::Text(v.clone())))
                        .collect(),
                )
            }
            "hgetall" => {
                let k = key!();
                exact(a, 1)?;
                Exp::Pairs(coll!(k, Val::Hash).map(|h| h.clone()).unwrap_or_default())
            }
            "hexists" => {
                let k = key!();
                exact(a, 2)?;
                Exp::Int(i64::from(coll!(k, Val::Hash).map_or(false, |h| h.contains_key(&a[1]))))
            }
            "hdel" => {
                let k = key!();
                a.get(1)?;
                let mut n = 0;
                if let Some(h) = coll!(k, Val::Hash) {
                    for f in &a[1..] {
                        if h.remove(f).is_some() {
                            n += 1;
                        }
                    }
                }
                self.drop_empty(&k);
                Exp::Int(n)
            }
            "hincrby" => {
                let k = key!();
                let by = int(&exact(a, 3)?[2])?;
                let old = match coll!(k, Val::Hash).and_then(|h| h.get(&a[1])) {
                    Some(v) => int(v)?,
                    None => 0,
                };
                let new = old.checked_add(by)?;
                let h = coll_or_new!(k, Val::Hash);
                h.insert(a[1].clone(), new.to_string().into_bytes());
                Exp::Int(new)
            }
            // sets
            "sadd" => {
                let k = key!();
                a.get(1)?;
                let s = coll_or_new!(k, Val::Set);
                Exp::Int(a[1..].iter().filter(|m| s.insert((*m).clone())).count() as i64)
            }
            "srem" => {
                let k = key!();
                a.get(1)?;
                let n = coll!(k, Val::Set).map_or(0, |s| a[1..].iter().filter(|m| s.remove(*m)).count());
                self.drop_empty(&k);
                Exp::Int(n as i64)
            }
            "sismember" => {
                let k = key!();
                exact(a, 2)?;
                Exp::Int(i64::from(coll!(k, Val::Set).map_or(false, |s| s.contains(&a[1]))))
            }
            "smismember" => {
                let k = key!();
                a.get(1)?;
                let s = coll!(k, Val::Set).map(|s| &*s);
                Exp::Arr(
                    a[1..].iter().map(|m| Exp::Int(i64::from(s.map_or(false, |s| s.contains(m))))).collect(),
                )
            }
            "smembers" => {
                let k = key!();
                exact(a, 1)?;
                Exp::Bag(coll!(k, Val::Set).map(|s| s.iter().cloned().collect()).unwrap_or_default())
            }
            // sorted sets
            "zadd" => {
                let k = key!();
                let (mut cond, mut gt, mut lt, mut ch, mut incr) = (Cond::None, false, false, false, false);
                let mut i = 1;
                while i < a.len() {
                    match opt(&a[i]).as_str() {
                        "nx" => cond = Cond::Nx,
                        "xx" => cond = Cond::Xx,
                        "gt" => gt = true,
                        "lt" => lt = true,
                        "ch" => ch = true,
                        "incr" => incr = true,
                        _ => break,
                    }
                    i += 1;
                }
                let rest = &a[i..];
                if rest.is_empty() || rest.len() % 2 != 0 {
                    return None;
                }
                let mut nodes = vec![];
                for p in rest.chunks(2) {
                    nodes.push((score(&p[0])?, p[1].clone()));
                }
                let mut z = coll!(k, Val::Zset).cloned().unwrap_or_default();
                let (mut added, mut changed) = (0, 0);
                if incr && out.map_or(false, Out::refused) {
                    // a sum that is no number refuses the command, even when an option (NX, XX, GT, LT) would have
                    // skipped the member: both are fine
                    let mut sums: BTreeMap<&[u8], f64> = BTreeMap::new();
                    for (s, m) in &nodes {
                        let x = sums.entry(m).or_insert_with(|| z.get(m).copied().unwrap_or(0.0));
                        *x += s;
                        if x.is_nan() {
                            return None;
                        }
                    }
                }
                for (s, m) in nodes {
                    match z.get(&m).copied() {
                        Some(old) => {
                            if cond == Cond::Nx {
                                continue;
                            }
                            let new = if incr { old + s } else { s };
                            if new.is_nan() {
                                return None;
                            }
                            if (gt && new <= old) || (lt && new >= old) {
                                continue;
                            }
                            if new != old {
                                z.insert(m, new);
                                changed += 1;
                            }
                        }
                        None => {
                            if cond == Cond::Xx {
                                continue;
                            }
                            z.insert(m, s);
                            added += 1;
                        }
                    }
                }
                if !z.is_empty() {
                    *coll_or_new!(k, Val::Zset) = z;
                }
                if incr {
                    Exp::Accepted
                } else {
                    Exp::Int(added + if ch { changed } else { 0 })
                }
            }
            "zrem" => {
                let k = key!();
                a.get(1)?;
                let n = coll!(k, Val::Zset).map_or(0, |z| a[1..].iter().filter(|m| z.remove(*m).is_some()).count());
                self.drop_empty(&k);
                Exp::Int(n as i64)
            }
            "zrank" | "zrevrank" => {
                let k = key!();
                exact(a, 2)?;
                match coll!(k, Val::Zset) {
                    None => Exp::Null,
                    Some(z) => {
                        let mut o = zorder(z);
                        if name == "zrevrank" {
                            o.reverse();
                        }
                        o.iter().position(|(m, _)| *m == a[1]).map_or(Exp::Null, |p| Exp::Int(p as i64))
                    }
                }
            }
            "zrange" | "zrevrange" | "zrangebyscore" | "zrevrangebyscore" | "zrangebylex" | "zrevrangebylex" => {
                let k = key!();
                let (first, second) = (a.get(1)?, a.get(2)?);
                let (mut rev, mut mode, mut scores, mut limit) = (false, 0, false, None);
                match name.as_str() {
                    "zrevrange" => rev = true,
                    "zrangebyscore" => mode = 1,
                    "zrevrangebyscore" => {
                        rev = true;
                        mode = 1;
                    }
                    "zrangebylex" => mode = 2,
                    "zrevrangebylex" => {
                        rev = true;
                        mode = 2;
                    }
                    _ => {}
                }
                let mut i = 3;
                while i < a.len() {
                    match opt(&a[i]).as_str() {
                        "byscore" => mode = 1,
                        "bylex" => mode = 2,
                        "rev" => rev = true,
                        "withscores" => scores = true,
                        "limit" => {
                            limit = Some((int(a.get(i + 1)?)?, int(a.get(i + 2)?)?));
                            i += 2;
                        }
                        _ => return Some(Exp::Any),
                    }
                    i += 1;
                }
                let z = coll!(k, Val::Zset).cloned().unwrap_or_default();
                let mut sel: Sel = zorder(&z);
                match mode {
                    0 => {
                        if limit.is_some() {
                            return Some(Exp::Any);
                        }
                        if rev {
                            sel.reverse();
                        }
                        let (s, e) = range(int(first)?, int(second)?, sel.len());
                        sel = sel[s..e].to_vec();
                    }
                    1 => {
                        let (min, max) = if rev { (second, first) } else { (first, second) };
                        let (min, max) = (score_bound(min)?, score_bound(max)?);
                        sel.retain(|(_, s)| in_score(&min, &max, *s));
                    }
                    _ => {
                        let (min, max) = if rev { (second, first) } else { (first, second) };
                        let (min, max) = (lex_bound(min)?, lex_bound(max)?);
                        sel.retain(|(m, _)| in_lex(&min, &max, m));
                        // only defined for equal scores
                        if !same_scores(&z) {
                            return Some(Exp::Any);
                        }
                    }
                }
                if mode != 0 {
                    if rev {
                        sel.reverse();
                    }
                    if let Some((off, n)) = limit {
                        let off = if off < 0 { sel.len() } else { (off as usize).min(sel.len()) };
                        sel = sel.split_off(off);
                        if n >= 0 {
                            sel.truncate(n as usize);
                        }
                    }
                }
                let mut res = vec![];
                for (m, s) in sel {
                    res.push(Exp::Text(m));
                    if scores {
                        res.push(Exp::Float(s));
                    }
                }
                Exp::Arr(res)
            }
            "zremrangebyrank" | "zremrangebyscore" | "zremrangebylex" => {
                let k = key!();
                exact(a, 3)?;
                let z = coll!(k, Val::Zset).cloned();
                let all = zorder(&z.clone().unwrap_or_default());
                let sel: Sel = match name.as_str() {
                    "zremrangebyrank" => {
                        let (s, e) = range(int(&a[1])?, int(&a[2])?, all.len());
                        all[s..e].to_vec()
                    }
                    "zremrangebyscore" => {
                        let (min, max) = (score_bound(&a[1])?, score_bound(&a[2])?);
                        all.into_iter().filter(|(_, s)| in_score(&min, &max, *s)).collect()
                    }
                    _ => {
                        let (min, max) = (lex_bound(&a[1])?, lex_bound(&a[2])?);
                        all.into_iter().filter(|(m, _)| in_lex(&min, &max, m)).collect()
                    }
                };
                if let Some(z) = coll!(k, Val::Zset) {
                    for (m, _) in &sel {
                        z.remove(m);
                    }
                }
                self.drop_empty(&k);
                Exp::Int(sel.len() as i64)
            }
            "dump" => {
                let k = key!();
                exact(a, 1)?;
                match self.map.get(&k) {
                    None => Exp::Null,
                    Some(e) => Exp::Dump(e.val.clone(), e.exp),
                }
            }
            "object" => {
                let k = exact(a, 2)?[1].clone();
                match opt(&a[0]).as_str() {
                    "idletime" | "freq" => (),
                    _ => return Some(Exp::Any),
                }
                self.map.get(&k)?;
                Exp::IntIn(0, i64::MAX)
            }
            "debug" => {
                let k = exact(a, 2)?[1].clone();
                self.map.get(&k)?;
                Exp::Ok
            }
            "restore" => {
                let k = key!();
                let ttl = int(a.get(1)?)?;
                let val = crate::wire::dump_val(a.get(2)?).ok()?;
                let (mut replace, mut abs) = (false, false);
                let mut i = 3;
                while i < a.len() {
                    match opt(&a[i]).as_str() {
                        "replace" => replace = true,
                        "absttl" => abs = true,
                        "idletime" | "freq" => {
                            i += 1;
                            int(a.get(i)?)?;
                        }
                        _ => return Some(Exp::Any),
                    }
                    i += 1;
                }
                if ttl < 0 || (!replace && self.map.contains_key(&k)) {
                    return None;
                }
                let exp = match ttl {
                    0 => 0,
                    t => match deadline(if abs { 0 } else { now }, t, 1) {
                        Deadline::At(d) => d,
                        Deadline::Huge => self.huge(out)?,
                    },
                };
                self.map.insert(k.clone(), Entry { val, exp });
                self.live(&k, now);
                Exp::Ok
            }
            "flushall" => {
                self.map.clear();
                Exp::Ok
            }
            _ => return None,
        })
    }

    /// is the effect of this command defined in this state?
    pub fn defined(&self, cmd: &[Vec<u8>]) -> bool {
        let lex = cmd.iter().enumerate().any(|(i, w)| {
            let w = String::from_utf8_lossy(w).to_lowercase();
            (i == 0 && w.ends_with("bylex")) || w == "bylex"
        });
        // Redis refuses to count on from 007, this server does not
        let name = String::from_utf8_lossy(&cmd[0]).to_lowercase();
        let old = match (name.as_str(), cmd.get(1).and_then(|k| self.map.get(k)).map(|e| &e.val)) {
            ("incr" | "decr" | "incrby" | "decrby", Some(Val::Str(s))) => Some(s),
            ("hincrby", Some(Val::Hash(h))) => cmd.get(2).and_then(|f| h.get(f)),
            _ => None,
        };
        if old.map_or(false, |s| int(s).map_or(false, |i| i.to_string().as_bytes() != &s[..])) {
            return false;
        }
        !lex || match cmd.get(1).and_then(|k| self.map.get(k)).map(|e| &e.val) {
            // order by member is only defined for equal scores
            Some(Val::Zset(z)) => same_scores(z),
            _ => true,
        }
    }

    /// the commands which read a whole key back
    pub fn readback(&self, key: &[u8]) -> Vec<Vec<Vec<u8>>> {
        let k = key.to_vec();
        let mut v = vec![vec![b("exists"), k.clone()]];
        match self.map.get(key).map(|e| &e.val) {
            None => {
                v.push(vec![b("get"), k.clone()]);
                v.push(vec![b("llen"), k]);
            }
            Some(Val::Str(_)) => v.push(vec![b("get"), k]),
            Some(Val::List(_)) => {
                v.push(vec![b("llen"), k.clone()]);
                v.push(vec![b("lrange"), k, b("0"), b("-1")]);
            }
            Some(Val::Hash(_)) => v.push(vec![b("hgetall"), k]),
            Some(Val::Set(_)) => v.push(vec![b("smembers"), k]),
            Some(Val::Zset(z)) => {
                v.push(vec![b("zrange"), k.clone(), b("0"), b("-1"), b("withscores")]);
                v.push(vec![b("zrangebyscore"), k.clone(), b("-inf"), b("+inf"), b("withscores")]);
                v.push(vec![b("zrevrange"), k.clone(), b("0"), b("-1"), b("withscores")]);
                for m in z.keys().take(3) {
                    v.push(vec![b("zrank"), k.clone(), m.clone()]);
                }
            }
        }
        v
    }
}

pub fn same_scores(z: &BTreeMap<Vec<u8>, f64>) -> bool {
    let mut it = z.values();
    match it.next() {
        Some(f) => it.all(|g| g == f),
        None => true,
    }
}

fn exact(a: &[Vec<u8>], n: usize) -> Option<&[Vec<u8>]> {
    if a.len() == n {
        Some(a)
    } else {
        None
    }
}
