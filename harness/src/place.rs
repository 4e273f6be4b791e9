//! C23: every key lives in its slot.
use crate::conc::start;
use crate::ctx::*;
use crate::model::*;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

type Cmd = Vec<Vec<u8>>;

/// every string over the alphabet up to this length
fn all_strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for c in alpha {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn odd_key(r: &mut Rng) -> Vec<u8> {
    let word = |r: &mut Rng| {
        let n = r.below(6);
        r.bytes(n)
    };
    match r.below(9) {
        0 => {
            let n = r.below(40);
            r.bytes(n)
        }
        1 => {
            let n = 1 + r.below(12);
            (0..n).map(|_| *r.pick(b"{}ab{}\x00\xff\r\n ")).collect()
        }
        2 => [b("{"), word(r), b("}"), word(r)].concat(),
        3 => [word(r), b("{"), word(r), b("}"), word(r)].concat(),
        4 => [word(r), b("{}"), b("{"), word(r), b("}")].concat(),
        5 => [word(r), b("}"), word(r), b("{"), word(r), b("}")].concat(),
        6 => [word(r), b("{{"), word(r), b("}}")].concat(),
        7 => {
            let n = 200 + r.below(5000);
            let mut k = r.bytes(n);
            let i = r.below(n);
            k[i] = b'{';
            let i = r.below(n);
            k[i] = b'}';
            k
        }
        _ => [b("user:"), r.below(100_000).to_string().into_bytes()].concat(),
    }
}

fn write_cmds(r: &mut Rng, k: &[u8]) -> (Cmd, Val) {
    let k = k.to_vec();
    let v = b("v");
    let s = |k: Cmd| (k, Val::Str(b("v")));
    let i = |k: Cmd, n: &str| (k, Val::Str(b(n)));
    match r.below(18) {
        0 => s(vec![b("set"), k, v]),
        1 => s(vec![b("setex"), k, b("1000"), v]),
        2 => s(vec![b("psetex"), k, b("1000000"), v]),
        3 => s(vec![b("set"), k, v, b("nx")]),
        4 => s(vec![b("set"), k, v, b("get")]),
        5 => i(vec![b("incr"), k], "1"),
        6 => i(vec![b("decr"), k], "-1"),
        7 => i(vec![b("incrby"), k, b("5")], "5"),
        8 => i(vec![b("decrby"), k, b("5")], "-5"),
        9 => (vec![b("rpush"), k, v.clone()], Val::List([v].into())),
        10 => (vec![b("lpush"), k, v.clone()], Val::List([v].into())),
        11 => (vec![b("hset"), k, b("f"), v.clone()], Val::Hash([(b("f"), v)].into())),
        12 => (vec![b("hsetnx"), k, b("f"), v.clone()], Val::Hash([(b("f"), v)].into())),
        13 => (vec![b("hincrby"), k, b("f"), b("3")], Val::Hash([(b("f"), b("3"))].into())),
        14 => (vec![b("sadd"), k, v.clone()], Val::Set([v].into())),
        15 => (vec![b("zadd"), k, b("2"), v.clone()], Val::Zset([(v, 2.0)].into())),
        _ => s(vec![b("restore"), k, b("0"), wire::payload(&Val::Str(v))]),
    }
}

/// a command which only finds the value in the right slot
fn reads(r: &mut Rng, k: &[u8], v: &Val) -> (Cmd, Exp) {
    let k = k.to_vec();
    let any = r.below(8);
    if any == 0 {
        return (vec![b("exists"), k], Exp::Int(1));
    }
    if any == 1 {
        return (vec![b("pttl"), k], Exp::IntIn(-1, 1_000_000));
    }
    if any == 2 {
        return (vec![b("dump"), k], Exp::Accepted);
    }
    match v {
        Val::Str(s) => (vec![b("get"), k], Exp::Text(s.clone())),
        Val::List(l) => match r.below(2) {
            0 => (vec![b("llen"), k], Exp::Int(l.len() as i64)),
            _ => (vec![b("lrange"), k, b("0"), b("-1")], Exp::Arr(l.iter().cloned().map(Exp::Text).collect())),
        },
        Val::Hash(h) => match r.below(4) {
            0 => (vec![b("hget"), k, b("f")], Exp::Text(h[&b("f")].clone())),
            1 => (vec![b("hexists"), k, b("f")], Exp::Int(1)),
            2 => (vec![b("hmget"), k, b("f")], Exp::Arr(vec![Exp::Text(h[&b("f")].clone())])),
            _ => (vec![b("hgetall"), k], Exp::Pairs(h.clone())),
        },
        Val::Set(s) => match r.below(3) {
            0 => (vec![b("sismember"), k, b("v")], Exp::Int(1)),
            1 => (vec![b("smismember"), k, b("v")], Exp::Arr(vec![Exp::Int(1)])),
            _ => (vec![b("smembers"), k], Exp::Bag(s.iter().cloned().collect())),
        },
        Val::Zset(_) => {
            let m = Exp::Arr(vec![Exp::Text(b("v"))]);
            match r.below(9) {
                0 => (vec![b("zrank"), k, b("v")], Exp::Int(0)),
                1 => (vec![b("zrevrank"), k, b("v")], Exp::Int(0)),
                2 => (vec![b("zrange"), k, b("0"), b("-1")], m),
                3 => (vec![b("zrevrange"), k, b("0"), b("-1")], m),
                4 => (vec![b("zrangebyscore"), k, b("2"), b("2")], m),
                5 => (vec![b("zrevrangebyscore"), k, b("2"), b("2")], m),
                6 => (vec![b("zrangebylex"), k, b("-"), b("+")], m),
                7 => (vec![b("zrevrangebylex"), k, b("+"), b("-")], m),
                _ => (vec![b("zrange"), k, b("2"), b("2"), b("byscore")], m),
            }
        }
    }
}

/// a command which removes the value again
fn removal(r: &mut Rng, k: &[u8], v: &Val) -> Cmd {
    let ks = k.to_vec();
    match (r.below(4), v) {
        (0, _) => vec![b("del"), ks],
        (1, _) => vec![b("pexpireat"), ks, b("1")],
        (_, Val::List(_)) => vec![b(*r.pick(&["lpop", "rpop"])), ks],
        (_, Val::Hash(_)) => vec![b("hdel"), ks, b("f")],
        (_, Val::Set(_)) => vec![b("srem"), ks, b("v")],
        (_, Val::Zset(_)) => match r.below(4) {
            0 => vec![b("zrem"), ks, b("v")],
            1 => vec![b("zremrangebyrank"), ks, b("0"), b("0")],
            2 => vec![b("zremrangebyscore"), ks, b("2"), b("2")],
            _ => vec![b("zremrangebylex"), ks, b("-"), b("+")],
        },
        _ => vec![b("pexpire"), ks, b("-1")],
    }
}

struct Job<'a> {
    ctx: &'a Ctx,
    srv: Server,
    r: Rng,
}

impl Job<'_> {
    fn bad(&self, what: &str, detail: String) {
        self.ctx.violation(what, &detail);
    }

    fn batch(&mut self, keys: Vec<Vec<u8>>) {
        let ctx = self.ctx;
        let keys: BTreeSet<Vec<u8>> = keys.into_iter().collect();
        let mut c = self.srv.client();
        if !c.c("flushall").is_ok() {
            return self.bad("FLUSHALL is refused", String::new());
        }
        let sub = wire::Sub::connect(self.srv.fwd, Duration::from_secs(20));
        let (mut sub, _) = match sub {
            Ok(s) => s,
            Err(e) => return ctx.inconclusive(&format!("no subscription: {}", e)),
        };
        let mut vals: BTreeMap<Vec<u8>, Val> = BTreeMap::new();
        let mut cmds = vec![];
        for k in &keys {
            let (c, v) = write_cmds(&mut self.r, k);
            cmds.push(c);
            vals.insert(k.clone(), v);
        }
        for (cmd, o) in cmds.iter().zip(c.pipeline(&cmds)) {
            if o.refused() || !matches!(o, Out::Reply(_)) {
                return self.bad(&format!("{} answered {}", esc_cmd(cmd), o.show()), String::new());
            }
        }
        // the stream names the slot of every write
        match sub.drain(Duration::from_secs(20)) {
            Ok(ms) => {
                let mut seen = BTreeSet::new();
                for m in &ms {
                    if let Some(k) = m.key() {
                        if key_slot(&k) != m.slot {
                            self.bad(
                                "a write is replicated under another slot than the one of its key",
                                format!("{}: slot of the key {}", m.show(), key_slot(&k)),
                            );
                        }
                        seen.insert(k);
                    }
                }
                ctx.count("slots read from the stream", seen.len() as u64);
            }
            Err(e) => return ctx.inconclusive(&format!("subscriber: {}", e)),
        }
        // reads find it
        let rd: Vec<(Cmd, Exp)> = vals.iter().map(|(k, v)| reads(&mut self.r, k, v)).collect();
        let rc: Vec<Cmd> = rd.iter().map(|r| r.0.clone()).collect();
        for ((cmd, e), o) in rd.iter().zip(c.pipeline(&rc)) {
            if !e.ok(&o) {
                return self.bad(
                    &format!("{} answered {}, expected {}", esc_cmd(cmd), o.show(), e.show()),
                    format!("slot {}", key_slot(&cmd[1])),
                );
            }
        }
        // where it is
        let s = match wire::snapshot(self.srv.addr, wire::ALL) {
            Ok(s) => s,
            Err(e) => return self.bad("the snapshot of all slots can't be decoded", e),
        };
        if s.slots.len() != wire::ALL {
            self.bad("the snapshot does not hold all slots", format!("{} slots", s.slots.len()));
        }
        let mut n = 0;
        for (id, d) in &s.slots {
            for (k, (v, _)) in &d.data {
                n += 1;
                ctx.eval(k);
                if key_slot(k) != *id {
                    self.bad(
                        "a key is stored in another slot than the one of the cluster specification",
                        format!("key {} slot {}, specified {}", esc(k), id, key_slot(k)),
                    );
                } else if vals.get(k) != Some(v) {
                    self.bad("a slot holds another value", format!("key {} slot {}: {}", esc(k), id, v.show()));
                }
            }
        }
        if n != vals.len() {
            self.bad("keys are missing in the snapshot or there twice", format!("{} stored, {} written", n, vals.len()));
        }
        // one slot at a time
        for _ in 0..12 {
            let k = self.r.pick(&keys.iter().collect::<Vec<_>>()).to_vec();
            let id = key_slot(&k);
            match wire::snapshot(self.srv.addr, id) {
                Ok(one) => {
                    ctx.count("single slot snapshots", 1);
                    let want = &s.slots[&id].data;
                    match one.slots.get(&id) {
                        Some(d) if one.slots.len() == 1 && d.data.keys().eq(want.keys()) => (),
                        d => self.bad(
                            "a snapshot of one slot does not hold exactly the keys of that slot",
                            format!("slot {}: {:?}, expected {:?}", id, d.map(|d| d.data.keys().map(|k| esc(k)).collect::<Vec<_>>()), want.keys().map(|k| esc(k)).collect::<Vec<_>>()),
                        ),
                    }
                }
                Err(e) => return self.bad("the snapshot of one slot can't be decoded", e),
            }
        }
        // expired in its slot: the reclaimer finds it there
        let mut left = vals.clone();
        let mut cmds = vec![];
        let mut expiring = BTreeSet::new();
        for (k, v) in &vals {
            match self.r.below(3) {
                0 => {
                    cmds.push(removal(&mut self.r, k, v));
                    left.remove(k);
                }
                1 => {
                    let ms = 1 + self.r.below(150);
                    cmds.push(vec![b("pexpire"), k.clone(), ms.to_string().into_bytes()]);
                    left.remove(k);
                    expiring.insert(k.clone());
                }
                _ => (),
            }
        }
        for (cmd, o) in cmds.iter().zip(c.pipeline(&cmds)) {
            if o.refused() || o.int() == Some(0) || o == Out::Reply(Reply::Null) || o == Out::Reply(Reply::Arr(vec![])) {
                return self.bad(&format!("{} of a stored key answered {}", esc_cmd(cmd), o.show()), String::new());
            }
        }
        let mut last = wire::Snap::default();
        let done = wait_until(Duration::from_secs(5), || {
            std::thread::sleep(Duration::from_millis(150));
            last = wire::snapshot(self.srv.addr, wire::ALL).unwrap_or_default();
            last.slots.len() == wire::ALL && last.all().keys().all(|k| left.contains_key(k))
        });
        if !done {
            let all = last.all();
            let k: Vec<_> = all.keys().filter(|k| !left.contains_key(*k)).take(5).map(|k| format!("{} slot {}", esc(k), key_slot(k))).collect();
            return self.bad("keys removed or expired are still stored in their slot", k.join(", "));
        }
        ctx.count("keys reclaimed in their slot", expiring.len() as u64);
        let all = last.all();
        for k in left.keys() {
            if !all.contains_key(k) {
                self.bad("a key disappeared although another one was removed", format!("{} slot {}", esc(k), key_slot(k)));
            }
        }
        // several keys in one command
        let ks: Vec<Vec<u8>> = left.keys().cloned().collect();
        for chunk in ks.chunks(17) {
            for (name, n) in [("exists", chunk.len()), ("del", chunk.len()), ("exists", 0)] {
                let cmd = [vec![b(name)], chunk.to_vec()].concat();
                let o = c.cmd(&cmd);
                if o.int() != Some(n as i64) {
                    return self.bad(&format!("{} of {} stored keys answered {}, expected {}", name, chunk.len(), o.show(), n), esc_cmd(&cmd));
                }
            }
        }
        ctx.count("batches", 1);
    }
}

pub fn c23(ctx: &Ctx) {
    ctx.rule("one evaluation: one key written by a random command, its slot read from the stream and from a full physical snapshot and compared with an independent CRC16 / hash tag implementation, read, removed or reclaimed again; distinct: keys differ");
    let until = ctx.deadline(10, 300);
    let mut pool: Vec<Vec<u8>> = all_strings(b"{}ab", ctx.n(5, 7));
    pool.extend(all_strings(b"{}", ctx.n(9, 12)));
    pool.extend((0..=255u8).map(|c| vec![c]));
    let mut r = ctx.rng(1);
    // every input byte at every table position: pairs
    for a in 0..=255u8 {
        for _ in 0..ctx.n(24, 256) {
            pool.push(vec![a, r.next() as u8]);
        }
    }
    ctx.sample(format!("systematic keys: {} e.g. {}", pool.len(), pool.iter().skip(700).take(12).map(|k| esc(k)).collect::<Vec<_>>().join(" ")));
    let next = std::sync::Mutex::new(pool);
    par(6, |i| {
        let mut j = Job { ctx, srv: start(ctx, &Opts::default()), r: ctx.rng(100 + i as u64) };
        while !ctx.violated() {
            let mut keys: Vec<Vec<u8>> = {
                let mut p = next.lock().unwrap();
                let n = p.len().saturating_sub(900);
                p.split_off(n)
            };
            if keys.is_empty() && std::time::Instant::now() > until {
                break;
            }
            ctx.count("systematic keys", keys.len() as u64);
            keys.extend((0..600).map(|_| odd_key(&mut j.r)));
            j.batch(keys);
        }
        if j.srv.dead() {
            ctx.violation("the server died", &j.srv.log_tail());
        }
        if let Some(p) = j.srv.panics().first() {
            ctx.violation(&format!("the server panicked: {}", p), &j.srv.log_tail());
        }
    });
}
