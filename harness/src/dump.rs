//! C16: DUMP and RESTORE between two real servers.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::resp::*;
use crate::seq::*;
use crate::util::*;
use crate::wire;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::Instant;

type Cmd = Vec<Vec<u8>>;

struct Pair<'a> {
    ctx: &'a Ctx,
    a: Env,
    z: Env,
    r: Rng,
    round: usize,
    odd: usize,
    st: Stats,
    log: Vec<String>,
}

enum Stop {
    Bad(String),
}

fn n(x: u64) -> Vec<u8> {
    x.to_string().into_bytes()
}

const FAMS: [Fam; 6] = [Fam::Str, Fam::List, Fam::Hash, Fam::Set, Fam::Zset, Fam::Mixed];

impl<'a> Pair<'a> {
    fn new(ctx: &'a Ctx, id: usize) -> Pair<'a> {
        Pair { ctx, a: Env::new(ctx), z: Env::new(ctx), r: ctx.rng(id as u64), round: 0, odd: 0, st: Stats::default(), log: vec![] }
    }

    /// send to the target and compare with its model
    fn z(&mut self, m: &mut Model, cmd: &Cmd) -> Result<Out, Stop> {
        let o = self.z.send(cmd);
        let e = m.apply(cmd, self.z.now, Some(&o));
        self.log.push(format!("target: {} -> {}", esc_cmd(cmd), o.show()));
        if !e.ok(&o) {
            return Err(Stop::Bad(format!("target: {} answered {}, expected {}", esc_cmd(cmd), o.show(), e.show())));
        }
        Ok(o)
    }
    fn back(&mut self, m: &mut Model, key: &[u8]) -> Result<(), Stop> {
        readback(&mut self.z, m, key, &mut self.st).map_err(|e| Stop::Bad(format!("target, {}", e)))
    }
    /// the physical content of the target under this key
    fn physical(&mut self, m: &Model, key: &[u8]) -> Result<(), Stop> {
        let s = wire::snapshot(self.z.srv.addr, key_slot(key)).map_err(|e| Stop::Bad(format!("snapshot of the target: {}", e)))?;
        let want = m.map.get(key).filter(|e| e.exp == 0 || e.exp > self.z.now);
        match (s.get(key), want) {
            (Some((v, e)), Some(w)) if *v == w.val && *e == w.exp => (),
            (None, None) => (),
            (Some((_, e)), None) if *e != 0 && *e <= self.z.now => (),
            (g, w) => {
                return Err(Stop::Bad(format!(
                    "target stores {} under {}, expected {}",
                    g.map_or("nothing".into(), |(v, e)| format!("{} deadline {}", v.show(), e)),
                    esc(key),
                    w.map_or("nothing".into(), |w| format!("{} deadline {}", w.val.show(), w.exp))
                )))
            }
        }
        self.ctx.count("physical comparisons", 1);
        Ok(())
    }

    fn big(&mut self) -> Val {
        let k = 2_000 + self.r.below(20_000);
        match self.r.below(5) {
            0 => Val::Str(self.r.bytes(k * 20)),
            1 => Val::List((0..k).map(|i| format!("{}", i * 7).into_bytes()).collect::<VecDeque<_>>()),
            2 => Val::Hash((0..k).map(|i| (format!("f{}", i).into_bytes(), self.r.bytes(8))).collect::<BTreeMap<_, _>>()),
            3 => Val::Set((0..k).map(|i| format!("m{}", i).into_bytes()).collect::<BTreeSet<_>>()),
            _ => Val::Zset((0..k).map(|i| (format!("m{}", i).into_bytes(), (i % 97) as f64 / 4.0)).collect::<BTreeMap<_, _>>()),
        }
    }
    /// builds a value with commands
    fn build(v: &Val, key: &[u8]) -> Vec<Cmd> {
        let mut out = vec![];
        let mut put = |name: &str, args: Vec<Vec<u8>>, step: usize| {
            for c in args.chunks(step) {
                out.push([vec![b(name), key.to_vec()], c.to_vec()].concat());
            }
        };
        match v {
            Val::Str(s) => put("set", vec![s.clone()], 1),
            Val::List(l) => put("rpush", l.iter().cloned().collect(), 500),
            Val::Hash(h) => put("hset", h.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect(), 500),
            Val::Set(s) => put("sadd", s.iter().cloned().collect(), 500),
            Val::Zset(z) => put("zadd", z.iter().flat_map(|(m, s)| [format!("{}", s).into_bytes(), m.clone()]).collect(), 500),
        }
        out
    }

    fn opts(&mut self, replace: bool) -> (Vec<u8>, Vec<Vec<u8>>) {
        let now = self.z.now;
        let mut o: Vec<Vec<u8>> = vec![];
        if replace {
            o.push(b(*self.r.pick(&["REPLACE", "replace", "Replace"])));
        }
        let ttl = match self.r.below(8) {
            0 => n(1),
            1 => n(self.r.range(2, 4000) as u64),
            2 => n(self.r.range(5_000, 5_000_000_000) as u64),
            3 | 4 => {
                o.push(b(*self.r.pick(&["ABSTTL", "absttl"])));
                match self.r.below(6) {
                    0 => n(now + 1),
                    1 => n(0),
                    // over already
                    2 => n(now),
                    3 => n(*self.r.pick(&[1, now - 1, now / 2])),
                    4 => n(now + 3_000_000),
                    _ => n(now + self.r.range(1, 5000) as u64),
                }
            }
            _ => n(0),
        };
        match self.r.below(6) {
            0 => o.extend([b("IDLETIME"), n(self.r.below(100_000) as u64)]),
            1 => o.extend([b("freq"), n(self.r.below(65536) as u64)]),
            _ => (),
        }
        if self.r.chance(1, 2) {
            // options in another order; pairs stay together
            if o.len() == 2 && o[0].to_ascii_lowercase() == b"replace" {
                o.swap(0, 1);
            }
        }
        (ttl, o)
    }

    fn round(&mut self) -> Result<(), Stop> {
        self.round += 1;
        self.log.clear();
        let prefix = format!("d{}:", self.round);
        let keys = 3;
        // a value with a history on the source
        let fam = *self.r.pick(&FAMS);
        let big = self.r.chance(1, 40);
        let now = self.a.now;
        let (seq, src) = if big {
            let v = self.big();
            let mut m = Model::new();
            let key = key_name(&prefix, 0);
            for c in Self::build(&v, &key) {
                let o = self.a.send(&c);
                if o.refused() {
                    return Err(Stop::Bad(format!("source: {} answered {}", esc_cmd(&c[..2]), o.show())));
                }
            }
            m.map.insert(key, Entry { val: v, exp: 0 });
            (vec![], m)
        } else {
            let mut g = Gen::new(self.r.fork(self.round as u64), keys, now);
            let len = 3 + self.r.below(25);
            let seq: Vec<GCmd> = (0..len).map(|_| g.cmd(fam)).collect();
            let m = run_seq(&mut self.a, &prefix, &seq, keys, &mut self.st)
                .map_err(|f| Stop::Bad(format!("source, {}\n{}", f.what, show_seq(&seq))))?;
            (seq, m)
        };
        if !seq.is_empty() {
            self.log.push(format!("source:\n{}", show_seq(&seq)));
        }
        let live: Vec<(usize, Vec<u8>, Entry)> = (0..keys)
            .map(|i| (i, key_name(&prefix, i)))
            .filter_map(|(i, k)| src.map.get(&k).map(|e| (i, k.clone(), e.clone())))
            .collect();
        for (i, k, e) in live {
            if self.r.chance(1, 3) {
                // its own deadline is not part of the value
                let o = self.a.send(&[b("pexpire"), k.clone(), n(1 + self.r.below(100_000) as u64)]);
                if o.int() != Some(1) {
                    return Err(Stop::Bad(format!("PEXPIRE of an existing key gives {}", o.show())));
                }
            }
            let o = self.a.send(&[b("dump"), k.clone()]);
            let p = match &o {
                Out::Reply(Reply::Bulk(p)) => p.clone(),
                o => return Err(Stop::Bad(format!("DUMP of an existing key gives {}", o.show()))),
            };
            match wire::dump_val(&p) {
                Ok(v) if v == e.val => (),
                g => {
                    return Err(Stop::Bad(format!(
                        "DUMP of {} decodes to {}",
                        e.val.show(),
                        g.map_or_else(|e| e, |v| v.show())
                    )))
                }
            }
            self.copy(i, &p, &e.val, fam, big)?;
            if !big && self.r.chance(1, 2) {
                self.damage(&p)?;
            }
        }
        Ok(())
    }

    /// a client cannot tell the copy from the original: the replies are of the same kind, too
    fn same_replies(&mut self, i: usize, key: &[u8], val: &Val) -> Result<(), Stop> {
        let src = key_name(&format!("d{}:", self.round), i);
        let reads: &[&str] = match val {
            Val::Str(_) => &["get K"],
            Val::List(_) => &["lrange K 0 -1", "llen K"],
            Val::Hash(_) => &["hgetall K"],
            Val::Set(_) => &["smembers K"],
            Val::Zset(_) => &["zrange K 0 -1 WITHSCORES"],
        };
        // an array in no particular order
        let sorted = |o: Out| match (o, val) {
            (Out::Reply(Reply::Arr(a)), Val::Hash(_) | Val::Set(_)) => {
                let w = if matches!(val, Val::Hash(_)) { 2 } else { 1 };
                let mut v: Vec<String> = a.chunks(w).map(|p| format!("{:?}", p)).collect();
                v.sort();
                v.join(" ")
            }
            (o, _) => format!("{:?}", o),
        };
        for read in reads {
            let cmd = |k: &[u8]| -> Cmd { words(read).into_iter().map(|w| if w == b"K" { k.to_vec() } else { w }).collect() };
            let (x, y) = (self.a.send(&cmd(&src)), self.z.send(&cmd(key)));
            let shown = (x.show(), y.show());
            if sorted(x) != sorted(y) {
                return Err(Stop::Bad(format!("{}: the original answers {}, the restored copy {}", read, shown.0, shown.1)));
            }
            self.ctx.count("replies of original and copy compared", 1);
        }
        Ok(())
    }

    /// restore the payload under another key of the other server and go on from there
    fn copy(&mut self, i: usize, p: &[u8], val: &Val, fam: Fam, big: bool) -> Result<(), Stop> {
        let prefix = format!("t{}:{}:", self.round, i);
        let key = key_name(&prefix, i);
        let mut m = Model::new();
        // something may be there already
        let there = self.r.below(4);
        let mut expired = false;
        if there > 0 {
            let mut g = Gen::new(self.r.fork(77), 1, self.z.now);
            let old = g.val();
            for c in Self::build(&old, &key) {
                self.z(&mut m, &c)?;
            }
            if there == 2 {
                let t = n(1 + self.r.below(3) as u64);
                self.z(&mut m, &vec![b("pexpire"), key.clone(), t])?;
                if self.r.chance(1, 2) {
                    expired = true;
                    let now = self.z.now + 5;
                    self.z.set_now(now);
                }
            }
        }
        let (ttl, o) = self.opts(false);
        let cmd = [vec![b("restore"), key.clone(), ttl, p.to_vec()], o].concat();
        let out = self.z(&mut m, &cmd)?;
        self.ctx.count(if out.refused() { "refused: key exists" } else { "restored" }, 1);
        if out.refused() != (there > 0 && !expired) {
            return Err(Stop::Bad(format!("{} answered {}", esc_cmd(&cmd), out.show())));
        }
        self.back(&mut m, &key)?;
        self.physical(&m, &key)?;
        if !out.refused() && m.map.contains_key(&key) {
            self.same_replies(i, &key, val)?;
        }
        if out.refused() || self.r.chance(1, 3) {
            let (ttl, o) = self.opts(true);
            let cmd = [vec![b("restore"), key.clone(), ttl, p.to_vec()], o].concat();
            self.z(&mut m, &cmd)?;
            self.back(&mut m, &key)?;
            self.physical(&m, &key)?;
            self.ctx.count("restored with REPLACE", 1);
        }
        self.ctx.eval(&[p, &cmd.iter().skip(4).flatten().copied().collect::<Vec<_>>()[..]].concat());
        // exactly the requested deadline
        let exp = m.map.get(&key).map_or(0, |e| e.exp);
        if exp > self.z.now && exp < self.z.now + 4000 && self.r.chance(1, 2) {
            if exp > self.z.now + 1 {
                self.z.set_now(exp - 1);
                self.back(&mut m, &key)?;
            }
            self.z.set_now(exp);
            self.back(&mut m, &key)?;
            self.ctx.count("deadlines of restored keys stepped over", 1);
            return Ok(());
        }
        // a second generation is the same again
        let o = self.z.send(&[b("dump"), key.clone()]);
        if m.live(&key, self.z.now).is_some() {
            match &o {
                Out::Reply(Reply::Bulk(q)) => match wire::dump_val(q) {
                    Ok(v) if v == *val => {
                        let q = q.clone();
                        let key2 = [&key[..], b"-2"].concat();
                        let o = self.a.send(&[b("restore"), key2.clone(), b("0"), q]);
                        let mut m2 = Model::new();
                        m2.map.insert(key2.clone(), Entry { val: val.clone(), exp: 0 });
                        if !o.is_ok() {
                            return Err(Stop::Bad(format!("RESTORE of the dump of a restored key answered {}", o.show())));
                        }
                        readback(&mut self.a, &mut m2, &key2, &mut self.st).map_err(|e| Stop::Bad(format!("second generation, {}", e)))?;
                    }
                    g => {
                        return Err(Stop::Bad(format!(
                            "DUMP of the restored {} decodes to {}",
                            val.show(),
                            g.map_or_else(|e| e, |v| v.show())
                        )))
                    }
                },
                o => return Err(Stop::Bad(format!("DUMP of a restored key gives {}", o.show()))),
            }
        }
        // it behaves like the original
        if !big {
            let fam = match val {
                _ if fam == Fam::Mixed && self.r.chance(1, 3) => Fam::Mixed,
                Val::Str(_) => Fam::Str,
                Val::List(_) => Fam::List,
                Val::Hash(_) => Fam::Hash,
                Val::Set(_) => Fam::Set,
                Val::Zset(_) => Fam::Zset,
            };
            let mut g = Gen::new(self.r.fork(i as u64 + 3), 1, self.z.now);
            let len = 6 + self.r.below(14);
            // every key of the sequence is the restored one
            let seq: Vec<GCmd> = (0..len)
                .map(|_| {
                    g.cmd(fam)
                        .into_iter()
                        .map(|a| match a {
                            Arg::Key(_) => Arg::Key(i),
                            a => a,
                        })
                        .collect()
                })
                .collect();
            // one key is enough: multi key commands would name it twice, which the model handles
            run_from(&mut self.z, m, &prefix, &seq, i + 1, &mut self.st)
                .map_err(|f| Stop::Bad(format!("after RESTORE of {}: {}\n{}", val.show(), f.what, show_seq(&seq))))?;
            self.ctx.count("follow-up sequences", 1);
        }
        Ok(())
    }

    fn mutate(&mut self, p: &[u8]) -> Vec<u8> {
        let mut q = p.to_vec();
        match self.r.below(12) {
            0 => {
                let k = self.r.below(q.len());
                q.truncate(k);
            }
            1 => {
                // the two trailing numbers: deadline and visit log
                let k = q.len() - self.r.below(17);
                q.truncate(k);
            }
            2..=5 => {
                let i = self.r.below(q.len());
                q[i] ^= 1 << self.r.below(8);
            }
            6 => {
                // the kind of the value
                q[0] = self.r.below(12) as u8;
            }
            7 => {
                // a length
                let i = 4 + self.r.below(8);
                if i < q.len() {
                    q[i] = *self.r.pick(&[0, 1, 255, 127, 128]);
                }
            }
            8 => {
                let i = self.r.below(q.len());
                let j = self.r.below(q.len());
                q.swap(i, j);
            }
            9 => {
                let i = self.r.below(q.len());
                let k = self.r.below(20);
                let x = self.r.bytes(k);
                q.splice(i..i, x);
            }
            10 => {
                let i = self.r.below(q.len());
                let j = (i + 1 + self.r.below(9)).min(q.len());
                q.drain(i..j);
            }
            _ => {
                let k = self.r.below(60);
                q = self.r.bytes(k);
                if k > 4 && self.r.chance(1, 2) {
                    q[1] = 0;
                    q[2] = 0;
                    q[3] = 0;
                    q[0] %= 10;
                }
            }
        }
        q
    }

    fn damage(&mut self, p: &[u8]) -> Result<(), Stop> {
        for t in 0..6 {
            let q = self.mutate(p);
            if q == p {
                continue;
            }
            self.odd += 1;
            let key = format!("x{}:{}", self.odd, t).into_bytes();
            let mut m = Model::new();
            let there = self.r.chance(1, 2);
            if there {
                let mut g = Gen::new(self.r.fork(78), 1, self.z.now);
                let old = g.val();
                for c in Self::build(&old, &key) {
                    self.z(&mut m, &c)?;
                }
            }
            let mut cmd = vec![b("restore"), key.clone(), b("0"), q.clone()];
            if there {
                cmd.push(b("replace"));
            }
            let o = self.z.send(&cmd);
            self.log.push(format!("target: {} -> {}", esc_cmd(&cmd), o.show()));
            if self.z.srv.dead() {
                panic!("SERVER DIED: restore of {}: {}", esc(&q), self.z.srv.log_tail());
            }
            match (wire::dump_val(&q), &o) {
                (Ok(v), o) if o.is_ok() => {
                    m.map.insert(key.clone(), Entry { val: v, exp: 0 });
                    self.ctx.count("altered payloads which are values", 1);
                }
                (Err(e), o) if o.is_ok() => {
                    return Err(Stop::Bad(format!("RESTORE accepts bytes which are not a value ({}): {}", e, esc(&q))));
                }
                (_, o) if o.refused() => self.ctx.count("damaged payloads refused", 1),
                (_, o) => return Err(Stop::Bad(format!("RESTORE of damaged bytes answered {}", o.show()))),
            }
            self.back(&mut m, &key)?;
            if self.r.chance(1, 4) {
                self.physical(&m, &key)?;
            }
            self.ctx.eval(&q);
        }
        Ok(())
    }
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("one evaluation: one dumped value restored on another server under another key with random options, read back (replies and physical content), stepped over its deadline or driven further in lock-step with the model; or one damaged payload restored; distinct: payload and options differ");
    let until: Instant = ctx.deadline(9, 400);
    par(7, |i| {
        let mut p = Pair::new(ctx, i);
        while Instant::now() < until && !ctx.violated() {
            if let Err(Stop::Bad(s)) = p.round() {
                ctx.violation(&s, &p.log.join("\n"));
            }
            if p.round % 2000 == 0 {
                let _ = p.a.send(&[b("flushall")]);
                let _ = p.z.send(&[b("flushall")]);
            }
            if i == 0 && p.round == 5 {
                ctx.sample(p.log.join(" | "));
            }
        }
        ctx.count("rounds", p.round as u64);
        for (w, e) in [("source", &p.a), ("target", &p.z)] {
            if e.srv.dead() {
                ctx.violation(&format!("the {} server died", w), &e.srv.log_tail());
            }
            if let Some(l) = e.srv.panics().first() {
                ctx.violation(&format!("the {} server panicked: {}", w, l), &e.srv.log_tail());
            }
        }
        ctx.count("commands compared with the model", p.st.cmds);
        ctx.count("read backs", p.st.reads);
    });
}
