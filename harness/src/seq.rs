//! Sequential reference model checks (C04 to C11): generated command sequences run against the
//! real server, every reply is compared with the model, the data is read back.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire;
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub struct Env {
    pub srv: Server,
    pub c: Client,
    pub now: u64,
}

impl Env {
    pub fn new(ctx: &Ctx) -> Env {
        let srv = Server::start(&ctx.bins, &Opts { clock: true, ..Default::default() })
            .unwrap_or_else(|e| panic!("{}", Inconclusive(e)));
        let now = now_ms() / 1000 * 1000 + 123;
        srv.clock.as_ref().unwrap().freeze(now);
        let c = srv.client();
        Env { srv, c, now }
    }
    pub fn set_now(&mut self, now: u64) {
        self.now = now;
        self.srv.clock.as_ref().unwrap().freeze(now);
    }
    pub fn send(&mut self, cmd: &[Vec<u8>]) -> Out {
        let o = if self.c.send_raw(&encode_mixed(cmd)).is_err() { Out::Closed } else { self.c.recv() };
        if !matches!(o, Out::Reply(_)) {
            self.c = self.srv.client();
        }
        o
    }
}

#[derive(Clone)]
pub struct Fail {
    pub at: usize,
    pub what: String,
}

#[derive(Default)]
pub struct Stats {
    pub cmds: u64,
    pub refused: u64,
    pub reads: u64,
    pub skipped: u64,
    pub steps: u64,
}

fn num(a: &[u8]) -> i64 {
    int(a).unwrap_or(0)
}

/// compare a key with the model
pub fn readback(env: &mut Env, m: &mut Model, key: &[u8], st: &mut Stats) -> Result<(), String> {
    m.live(key, env.now);
    let mut cmds = m.readback(key);
    cmds.push(vec![b("pttl"), key.to_vec()]);
    for c in cmds {
        st.reads += 1;
        let o = env.send(&c);
        let e = m.apply(&c, env.now, Some(&o));
        if !e.ok(&o) {
            return Err(format!("reading back: {} gives {}, expected {}", esc_cmd(&c), o.show(), e.show()));
        }
    }
    Ok(())
}

pub fn run_seq(env: &mut Env, prefix: &str, seq: &[GCmd], keys: usize, st: &mut Stats) -> Result<Model, Fail> {
    run_from(env, Model::new(), prefix, seq, keys, st)
}

/// continues from a known state
pub fn run_from(
    env: &mut Env,
    mut m: Model,
    prefix: &str,
    seq: &[GCmd],
    keys: usize,
    st: &mut Stats,
) -> Result<Model, Fail> {
    for (at, g) in seq.iter().enumerate() {
        let cmd = render(g, prefix);
        let fail = |what: String| Fail { at, what };
        if cmd[0].starts_with(b"@") {
            st.steps += 1;
            let t = if cmd[0] == b"@adv" {
                env.now + num(&cmd[1]) as u64
            } else {
                match m.map.get(&cmd[1]) {
                    Some(e) if e.exp != 0 && e.exp < env.now + 10_000_000 => {
                        ((e.exp as i64 + num(&cmd[2])) as u64).max(env.now)
                    }
                    _ => env.now,
                }
            };
            env.set_now(t);
            continue;
        }
        if !m.defined(&cmd) {
            st.skipped += 1;
            continue;
        }
        let before = m.clone();
        let o = env.send(&cmd);
        let e = m.apply(&cmd, env.now, Some(&o));
        st.cmds += 1;
        if !e.ok(&o) {
            let state: Vec<_> = before
                .map
                .iter()
                .map(|(k, v)| format!("{}: {} deadline {}", esc(k), v.val.show(), v.exp))
                .collect();
            return Err(fail(format!(
                "{} answered {}, expected {} {}",
                esc_cmd(&cmd),
                o.show(),
                e.show(),
                state.join("; ")
            )));
        }
        let refused = o.refused();
        if refused {
            st.refused += 1;
        }
        if refused || at % 5 == 4 {
            for a in g {
                if let Arg::Key(i) = a {
                    readback(env, &mut m, &key_name(prefix, *i), st).map_err(|w| {
                        fail(format!("after {} (answered {}), {}", esc_cmd(&cmd), o.show(), w))
                    })?;
                }
            }
        }
    }
    for i in 0..keys {
        readback(env, &mut m, &key_name(prefix, i), st)
            .map_err(|w| Fail { at: seq.len(), what: format!("at the end, {}", w) })?;
    }
    Ok(m)
}

/// remove commands as long as the sequence still fails
pub fn shrink(env: &mut Env, tag: &str, start: u64, seq: Vec<GCmd>, keys: usize, fail: Fail) -> (Vec<GCmd>, Fail) {
    let end = Instant::now() + Duration::from_secs(15);
    let mut n = 0;
    let mut best = (seq, fail);
    best.0.truncate(best.1.at + 1);
    let mut chunk = (best.0.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < best.0.len() {
            if Instant::now() > end || n > 500 {
                return best;
            }
            let mut cand = best.0.clone();
            let hi = (i + chunk).min(cand.len());
            cand.drain(i..hi);
            n += 1;
            env.set_now(start);
            match run_seq(env, &format!("{}s{}:", tag, n), &cand, keys, &mut Stats::default()) {
                Err(f) => {
                    best = (cand, f);
                    progress = true;
                }
                Ok(_) => i += chunk,
            }
        }
        if chunk == 1 && !progress {
            return best;
        }
        chunk = (chunk / 2).max(1);
    }
}

pub fn show_seq(seq: &[GCmd]) -> String {
    seq.iter().map(|c| esc_cmd(&render(c, "K"))).collect::<Vec<_>>().join("\n")
}

fn k(i: usize) -> Arg {
    Arg::Key(i)
}
fn g(words: &str) -> GCmd {
    words
        .split(' ')
        .map(|w| match w {
            "K0" => k(0),
            "K1" => k(1),
            "''" => Arg::B(vec![]),
            w => Arg::B(b(w)),
        })
        .collect()
}

/// states of a key
fn states() -> Vec<(&'static str, Vec<GCmd>)> {
    vec![
        ("absent", vec![]),
        ("text", vec![g("set K0 hello")]),
        ("counter", vec![g("set K0 41")]),
        ("list1", vec![g("rpush K0 a")]),
        ("list3", vec![g("rpush K0 1 b c")]),
        ("hash1", vec![g("hset K0 f 5")]),
        ("hash3", vec![g("hset K0 f 1 g x h 3")]),
        ("set1", vec![g("sadd K0 a")]),
        ("set3", vec![g("sadd K0 a b f")]),
        ("zset1", vec![g("zadd K0 1 a")]),
        ("zset3", vec![g("zadd K0 1 a 1 b 1 f")]),
    ]
}

/// every command, with valid and invalid arguments
fn templates() -> Vec<GCmd> {
    let mut v: Vec<GCmd> = "set K0 v|set K0 v NX|set K0 v XX|set K0 v GET|set K0 v NX GET|set K0 v XX GET|set K0 v KEEPTTL|set K0 v KEEPTTL GET\
|set K0 v EX 100|set K0 v EX 0|set K0 v PX abc|get K0|incr K0|decr K0|incrby K0 5|decrby K0 5|incrby K0 x|incrby K0 9223372036854775807\
|decrby K0 -9223372036854775808|setex K0 100 v|setex K0 0 v|psetex K0 100000 v|psetex K0 -1 v|del K0|del K0 K1 K0|exists K0|exists K0 K0 K1\
|expire K0 100|expire K0 100 NX|expire K0 100 XX|expire K0 100 GT|expire K0 100 LT|expire K0 -1|expire K0 x|pexpire K0 100000|ttl K0|pttl K0\
|lpush K0 x|rpush K0 x y|lpushx K0 x|rpushx K0 x|lpop K0|rpop K0|lpop K0 0|lpop K0 1|rpop K0 3|rpop K0 100|lpop K0 -1|lpop K0 x|llen K0|lrange K0 0 -1|lrange K0 x 1\
|hset K0 f v|hset K0 n v m w|hset K0 f|hsetnx K0 f z|hsetnx K0 n z|hget K0 f|hmget K0 f nope g|hgetall K0|hexists K0 f|hdel K0 f|hdel K0 f g h|hdel K0 nope|hincrby K0 f 2\
|hincrby K0 g 2|hincrby K0 n 2|hincrby K0 f x|hincrby K0 f 9223372036854775807\
|sadd K0 a|sadd K0 q w|srem K0 a|srem K0 a b f|srem K0 nope|sismember K0 a|smismember K0 a q|smembers K0\
|zadd K0 2 a|zadd K0 NX 2 a|zadd K0 XX 2 a|zadd K0 XX 2 new|zadd K0 GT 0 a|zadd K0 LT 0 a|zadd K0 CH 5 a 6 new|zadd K0 INCR 2 a|zadd K0 nan a|zadd K0 1|zadd K0 1 a x b\
|zrem K0 a|zrem K0 a b f|zrem K0 nope|zrank K0 a|zrevrank K0 a|zrank K0 nope|zrange K0 0 -1|zrange K0 0 -1 WITHSCORES|zrange K0 x 1|zrevrange K0 0 -1|zrangebyscore K0 -inf +inf\
|zrangebyscore K0 (1 2|zrangebyscore K0 a b|zrevrangebyscore K0 +inf -inf|zrangebylex K0 - +|zrevrangebylex K0 + -|zrangebylex K0 a b|zremrangebyrank K0 0 -1|zremrangebyrank K0 0 0\
|zremrangebyrank K0 5 9|zremrangebyscore K0 -inf +inf|zremrangebyscore K0 (1 5|zremrangebyscore K0 x y|zremrangebylex K0 - +|zremrangebylex K0 [b [b|zremrangebylex K0 x y\
|dump K0|object IDLETIME K0|object FREQ K0|restore K0 0 garbage|restore K0 0 garbage REPLACE|restore K0 -1 garbage REPLACE|get|set K0|nosuch K0|incr|hset K0|lpush K0|zadd K0"
        .split('|')
        .map(g)
        .collect();
    for val in [
        Val::Str(b("restored")),
        Val::List([b("x"), b("y")].into_iter().collect()),
        Val::Zset([(b("a"), 3.0), (b("z"), -1.5)].into_iter().collect()),
    ] {
        for tail in [vec![], vec!["REPLACE"]] {
            for ttl in ["0", "100000"] {
                let mut c = vec![Arg::B(b("restore")), k(0), Arg::B(b(ttl)), Arg::B(wire::payload(&val))];
                c.extend(tail.iter().map(|t| Arg::B(b(t))));
                v.push(c);
            }
        }
    }
    v
}

/// the systematic part: every state, every command
fn matrix(prop: &str) -> Vec<Vec<GCmd>> {
    let mut v = vec![];
    let fam = |c: &GCmd| -> &'static str {
        let n = match &c[0] {
            Arg::B(n) => String::from_utf8_lossy(n).to_string(),
            Arg::Key(_) => String::new(),
        };
        match n.as_str() {
            "set" | "get" | "incr" | "decr" | "incrby" | "decrby" | "setex" | "psetex" | "del" | "exists" => "C04",
            "lpush" | "rpush" | "lpushx" | "rpushx" | "lpop" | "rpop" | "llen" | "lrange" => "C05",
            "hset" | "hsetnx" | "hget" | "hmget" | "hgetall" | "hexists" | "hdel" | "hincrby" => "C06",
            "sadd" | "srem" | "sismember" | "smismember" | "smembers" => "C07",
            n if n.starts_with('z') => "C08",
            _ => "",
        }
    };
    let own = |st: &str| match prop {
        "C04" => ["absent", "text", "counter"].contains(&st),
        "C05" => st == "absent" || st.starts_with("list"),
        "C06" => st == "absent" || st.starts_with("hash"),
        "C07" => st == "absent" || st.starts_with("set"),
        "C08" => st == "absent" || st.starts_with("zset"),
        _ => true,
    };
    let follow = ["set K0 w NX", "lpush K0 n", "hset K0 n 1", "sadd K0 n", "zadd K0 7 n", "incr K0"];
    for (name, st) in states() {
        if !own(name) {
            continue;
        }
        for t in templates() {
            match prop {
                "C09" => {
                    // whatever the command left, each type is tried on it
                    for f in follow {
                        v.push([st.clone(), vec![t.clone(), g(f)]].concat());
                    }
                }
                "C10" => {
                    for d in ["-1", "0", "1", "400"] {
                        for set in ["pexpire K0 250", "pexpireat"] {
                            if st.is_empty() && d != "0" {
                                continue;
                            }
                            let set = if set == "pexpireat" { "expire K0 2" } else { set };
                            let to = vec![Arg::B(b("@to")), k(0), Arg::B(b(d))];
                            v.push([st.clone(), vec![g(set), to.clone(), t.clone(), g("pttl K0")]].concat());
                            // and what the deadline does to what the command left
                            v.push([st.clone(), vec![g(set), t.clone(), to, g("exists K0")]].concat());
                        }
                    }
                }
                "C11" => {
                    for ttl in ["", "pexpire K0 50000", "pexpire K0 100000", "pexpire K0 200000"] {
                        if !ttl.is_empty() && st.is_empty() {
                            continue;
                        }
                        let mut s = st.clone();
                        if !ttl.is_empty() {
                            s.push(g(ttl));
                        }
                        s.push(t.clone());
                        s.push(g("pttl K0"));
                        s.push(g("set K0 q KEEPTTL"));
                        s.push(g("pttl K0"));
                        v.push(s);
                    }
                }
                p if fam(&t) == p => v.push([st.clone(), vec![t]].concat()),
                _ => (),
            }
        }
    }
    if prop == "C11" {
        for ttl in ["", "pexpire K0 50000", "pexpire K0 100000", "pexpire K0 200000"] {
            for c in ["expire", "pexpire", "expireat", "pexpireat"] {
                for o in ["", "NX", "XX", "GT", "LT", "XX GT", "XX LT", "gt xx", "lt xx", "nx"] {
                    for t in [-1i64, 0, 1, 50, 100, 150, 200, 250, i64::MAX, i64::MIN, i64::MAX / 1000, i64::MIN / 1000, i64::MAX / 1000 + 1] {
                        let mut s = vec![g("set K0 v")];
                        if !ttl.is_empty() {
                            s.push(g(ttl));
                        }
                        let mult = if c.starts_with('p') { 1000 } else { 1 };
                        let abs = c.ends_with("at");
                        let arg = if t.unsigned_abs() < 1000 && !abs { (t * mult).to_string() } else { t.to_string() };
                        let mut cmd = g(&format!("{} K0", c));
                        if abs && t.unsigned_abs() < 1000 {
                            // filled in from the clock of the sequence
                            cmd.push(Arg::B(format!("@now{}{}", if mult == 1 { "s" } else { "m" }, t * mult).into_bytes()));
                        } else {
                            cmd.push(Arg::B(arg.into_bytes()));
                        }
                        cmd.extend(o.split(' ').filter(|w| !w.is_empty()).map(|w| Arg::B(b(w))));
                        s.push(cmd);
                        s.push(g("pttl K0"));
                        s.push(g("ttl K0"));
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}

/// resolve arguments relative to the clock
fn resolve(seq: &mut [GCmd], now: u64) {
    for c in seq {
        for a in c {
            if let Arg::B(v) = a {
                if let Some(r) = v.strip_prefix(b"@now") {
                    let d = num(&r[1..]);
                    let t = if r[0] == b's' { now as i64 / 1000 + d } else { now as i64 + d };
                    *v = t.to_string().into_bytes();
                }
            }
        }
    }
}

/// physical content against the models
fn physical(env: &mut Env, models: &HashMap<String, Model>) -> Result<u64, String> {
    let s = match wire::snapshot(env.srv.addr, wire::ALL) {
        Ok(s) => s,
        // broken snapshots are another property
        Err(e) => {
            return if e.contains("sorted set") || e.contains("empty") || e.contains("value of kind") {
                Err(e)
            } else {
                Ok(0)
            }
        }
    };
    let mut n = 0;
    let all = s.all();
    for (p, m) in models {
        for (key, e) in &m.map {
            if e.exp != 0 && e.exp != FAR && e.exp <= env.now {
                continue;
            }
            let want = (e.val.clone(), wire::norm_exp(e.exp));
            n += 1;
            match all.get(key) {
                Some(got) if *got == want => (),
                Some(got) => {
                    return Err(format!(
                        "key {} ({}) is stored as {} deadline {}, expected {} deadline {}",
                        esc(key),
                        p,
                        got.0.show(),
                        got.1,
                        want.0.show(),
                        want.1
                    ))
                }
                None => return Err(format!("key {} is not stored, expected {}", esc(key), want.0.show())),
            }
        }
    }
    let want: std::collections::HashSet<&Vec<u8>> = models.values().flat_map(|m| m.map.keys()).collect();
    for (key, (val, exp)) in &all {
        let live = *exp == 0 || *exp > env.now;
        if live && !want.contains(key) {
            return Err(format!("key {} is stored as {} deadline {}, but should not exist", esc(key), val.show(), exp));
        }
    }
    Ok(n)
}

fn run(ctx: &Ctx, fam: Fam, keys: usize, len: (usize, usize)) {
    let threads = 6;
    let end = ctx.deadline(9, 150);
    let mat = matrix(&ctx.prop);
    ctx.count("systematic_sequences", mat.len() as u64);
    let results = par(threads, |t| {
        let mut env = Env::new(ctx);
        let mut st = Stats::default();
        let mut models: HashMap<String, Model> = HashMap::new();
        let mut i = 0;
        let mut mi = t;
        let mut physical_keys = 0;
        let (mut wide, mut huge) = (0, 0);
        while (Instant::now() < end || mi < mat.len()) && ctx.n_violations() < 3 && !env.srv.dead() {
            let start = env.now + 1000;
            env.set_now(start);
            let mut gen = Gen::new(ctx.rng((t as u64) << 32 | i), keys, start);
            gen.wide = if i % 150 == 31 { 30_000 } else if i % 12 == 7 { 3000 } else { 0 };
            wide += (gen.wide > 0) as u64;
            huge += (gen.wide > 3000) as u64;
            let seq: Vec<GCmd> = if mi < mat.len() {
                let mut s = mat[mi].clone();
                resolve(&mut s, start);
                mi += threads;
                s
            } else {
                let n = if gen.wide > 3000 { 14 } else { len.0 + gen.r.below(len.1 - len.0) };
                let mut s: Vec<GCmd> = vec![];
                if gen.wide > 3000 {
                    // work on one large collection
                    gen.keys = 1;
                    s.extend(gen.large(fam));
                }
                s.extend((0..n).map(|_| gen.cmd(fam)));
                s
            };
            let prefix = format!("{}.{}:", t, i);
            i += 1;
            let mut case = Vec::new();
            for c in &seq {
                case.extend_from_slice(esc_cmd(&render(c, "K")).as_bytes());
                case.push(b'\n');
            }
            ctx.eval(&case);
            match run_seq(&mut env, &prefix, &seq, keys, &mut st) {
                Ok(m) => {
                    if i % 40 == 3 {
                        ctx.sample(format!(
                            "{} => {}",
                            show_seq(&seq).replace('\n', " ; "),
                            m.map.iter().map(|(k, e)| format!("{} {}", esc(k), e.val.show())).collect::<Vec<_>>().join(" ; ")
                        ));
                    }
                    models.insert(prefix, m);
                }
                Err(f) => {
                    if env.srv.dead() {
                        panic!("SERVER DIED: {} ({})", env.srv.log_tail(), f.what);
                    }
                    let (s, f2) = shrink(&mut env, &prefix, start, seq, keys, f.clone());
                    ctx.violation(&f2.what, &format!("minimal sequence:\n{}\n\nfirst seen as: {}", show_seq(&s), f.what));
                    // the models of this server are no longer complete
                    return st;
                }
            }
            if models.len() >= 1500 {
                match physical(&mut env, &models) {
                    Ok(n) => physical_keys += n,
                    Err(e) => ctx.violation(&format!("stored data: {}", e), &e),
                }
                // forget them: a fresh server keeps the comparison complete
                models.clear();
                let now = env.now;
                env = Env::new(ctx);
                env.set_now(now);
            }
        }
        match physical(&mut env, &models) {
            Ok(n) => physical_keys += n,
            Err(e) => ctx.violation(&format!("stored data: {}", e), &e),
        }
        ctx.count("stored_keys_compared", physical_keys);
        ctx.count("wide_sequences", wide);
        ctx.count("sequences with thousands of arguments", huge);
        st
    });
    for s in results {
        ctx.count("commands_checked", s.cmds);
        ctx.count("refusals_checked", s.refused);
        ctx.count("readback_replies_checked", s.reads);
        ctx.count("clock_steps", s.steps);
    }
    ctx.assume("the server runs with its realtime clock frozen and stepped by the harness (LD_PRELOAD)");
    ctx.assume("conforming Redis reply shapes are compared by value; contradictory option combinations are not generated");
}

pub fn untimed(ctx: &Ctx) {
    ctx.rule(
        "one evaluation: one generated command sequence (systematic state x command pairs first, then random ones) run on fresh keys of a real server, every reply compared with a sequential reference model, keys read back after refusals, every 5 commands and at the end, physical content compared by snapshot; distinct: command texts differ",
    );
    match ctx.prop.as_str() {
        "C04" => run(ctx, Fam::Str, 3, (20, 60)),
        "C05" => run(ctx, Fam::List, 2, (20, 60)),
        "C06" => run(ctx, Fam::Hash, 2, (20, 60)),
        "C07" => run(ctx, Fam::Set, 2, (20, 60)),
        "C08" => run(ctx, Fam::Zset, 2, (20, 80)),
        _ => run(ctx, Fam::Mixed, 2, (20, 60)),
    }
}

pub fn timed(ctx: &Ctx) {
    ctx.rule(
        "one evaluation: one generated command sequence with clock steps run against a real server whose realtime clock is frozen, so that commands execute exactly before, at and after deadlines; every reply, deadline (PTTL) and the physical content compared with a sequential reference model; distinct: command texts differ",
    );
    match ctx.prop.as_str() {
        "C10" => run(ctx, Fam::Timed, 3, (20, 60)),
        _ => run(ctx, Fam::Expiry, 3, (15, 50)),
    }
}
