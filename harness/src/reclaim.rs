//! C12: expired keys are reclaimed by themselves, and only expired keys.
use crate::conc::{start, variants};
use crate::ctx::*;
use crate::model::*;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

type Cmd = Vec<Vec<u8>>;

/// an expired key must be gone this long after its deadline
const GRACE: u64 = 3_000;

/// what is known about a key: value and deadline between lo and hi (0, 0: none)
#[derive(Clone, Debug)]
struct Known {
    val: Val,
    lo: u64,
    hi: u64,
    how: String,
}

fn make(r: &mut Rng, key: &[u8]) -> (Cmd, Val) {
    let k = key.to_vec();
    let n = r.below(1000);
    let a = format!("a{}", n).into_bytes();
    let c = format!("c{}", n).into_bytes();
    match r.below(6) {
        0 => (vec![b("set"), k, a.clone()], Val::Str(a)),
        1 => (vec![b("incrby"), k, n.to_string().into_bytes()], Val::Str(n.to_string().into_bytes())),
        2 => (vec![b("rpush"), k, a.clone(), c.clone()], Val::List([a, c].into())),
        3 => (
            vec![b("hset"), k, a.clone(), c.clone()],
            Val::Hash([(a, c)].into()),
        ),
        4 => (vec![b("sadd"), k, a.clone(), c.clone()], Val::Set([a, c].into())),
        _ => (vec![b("zadd"), k, b("1"), a.clone(), b("2"), c.clone()], Val::Zset([(a, 1.0), (c, 2.0)].into())),
    }
}

/// gives the key a deadline `ms` from now by some command; returns the bounds of the deadline
fn set_deadline(r: &mut Rng, c: &mut Client, k: &[u8], ms: u64, val: &mut Val) -> Result<(u64, u64, String), String> {
    let t0 = now_ms();
    let ks = k.to_vec();
    let n = |x: u64| x.to_string().into_bytes();
    let secs = (t0 + ms) / 1000 + 1;
    let (cmd, lo, hi) = match r.below(11) {
        0 => (vec![b("pexpire"), ks, n(ms)], Some(ms), 0),
        1 => (vec![b("pexpireat"), ks, n(t0 + ms)], None, t0 + ms),
        2 => (vec![b("expire"), ks, n(ms / 1000 + 1)], Some((ms / 1000 + 1) * 1000), 0),
        3 => (vec![b("expireat"), ks, n(secs)], None, secs * 1000),
        4 => {
            *val = Val::Str(b("px"));
            (vec![b("set"), ks, b("px"), b("PX"), n(ms)], Some(ms), 0)
        }
        5 => {
            *val = Val::Str(b("pxat"));
            (vec![b("set"), ks, b("pxat"), b("pxat"), n(t0 + ms)], None, t0 + ms)
        }
        6 => {
            *val = Val::Str(b("psetex"));
            (vec![b("psetex"), ks, n(ms), b("psetex")], Some(ms), 0)
        }
        7 => {
            *val = Val::Str(b("setex"));
            (vec![b("setex"), ks, n(ms / 1000 + 1), b("setex")], Some((ms / 1000 + 1) * 1000), 0)
        }
        8 => (vec![b("restore"), ks, n(ms), wire::payload(val), b("replace")], Some(ms), 0),
        9 => (vec![b("restore"), ks, n(t0 + ms), wire::payload(val), b("replace"), b("absttl")], None, t0 + ms),
        _ => {
            *val = Val::Str(b("exat"));
            (vec![b("set"), ks, b("exat"), b("EXAT"), n(secs)], None, secs * 1000)
        }
    };
    let o = c.cmd(&cmd);
    let t1 = now_ms();
    if o.int() != Some(1) && !o.is_ok() {
        return Err(format!("{} gives {}", esc_cmd(&cmd), o.show()));
    }
    let how = esc_cmd(&cmd);
    Ok(match lo {
        Some(d) => (t0 + d, t1 + d, how),
        None => (hi, hi, how),
    })
}

/// compares a physical snapshot taken between t0 and t1
fn judge(ctx: &Ctx, what: &str, keys: &BTreeMap<Vec<u8>, Known>, s: &wire::Snap, t0: u64, t1: u64) -> (usize, usize) {
    let (mut gone, mut due) = (0, 0);
    for (k, w) in keys {
        let got = s.get(k);
        let d = |m: String| {
            format!(
                "key {} ({}), deadline {}..{}, snapshot taken between {} and {}: {}",
                esc(k),
                w.how,
                w.lo,
                w.hi,
                t0,
                t1,
                m
            )
        };
        match got {
            None => {
                gone += 1;
                if w.lo == 0 {
                    ctx.violation(&format!("{}: a key without a deadline disappeared", what), &d("absent".into()));
                } else if t1 < w.lo {
                    ctx.violation(&format!("{}: a key disappeared before its deadline", what), &d("absent".into()));
                }
            }
            Some((v, e)) => {
                if w.hi > 0 && t0 > w.hi + GRACE {
                    ctx.violation(
                        &format!("{}: an expired key is still stored {} ms after its deadline", what, t0 - w.hi),
                        &d(format!("stored {} deadline {}", v.show(), e)),
                    );
                } else if *v != w.val || *e < w.lo || *e > w.hi {
                    ctx.violation(
                        &format!("{}: a key has another value or deadline than it was given", what),
                        &d(format!("stored {} deadline {}, expected {}", v.show(), e, w.val.show())),
                    );
                }
                if w.hi > 0 && t0 > w.hi {
                    due += 1;
                }
            }
        }
    }
    (gone, due)
}

fn snap(ctx: &Ctx, a: std::net::SocketAddr) -> Option<(wire::Snap, u64, u64)> {
    let t0 = now_ms();
    match wire::snapshot(a, wire::ALL) {
        Ok(s) => Some((s, t0, now_ms())),
        Err(e) => {
            ctx.inconclusive(&format!("no snapshot: {}", e));
            None
        }
    }
}

/// many keys of all types with all kinds of deadlines, changed again and again
fn bulk(ctx: &Ctx, id: usize, name: &str, o: &Opts, n: usize, span: u64) {
    let srv = start(ctx, o);
    let mut r = ctx.rng(100 + id as u64);
    let mut c = srv.client();
    let mut keys: BTreeMap<Vec<u8>, Known> = BTreeMap::new();
    let bad = |e: String| ctx.violation(&format!("bulk: {}", e), "");
    for i in 0..n {
        let k = format!("b{}", i).into_bytes();
        let (cmd, mut val) = make(&mut r, &k);
        let o = c.cmd(&cmd);
        if o.refused() {
            return bad(format!("{} gives {}", esc_cmd(&cmd), o.show()));
        }
        let mut e = Known { val: val.clone(), lo: 0, hi: 0, how: "no deadline".into() };
        if i % 8 != 0 {
            let ms = 200 + r.below(span as usize) as u64;
            match set_deadline(&mut r, &mut c, &k, ms, &mut val) {
                Ok((lo, hi, how)) => e = Known { val, lo, hi, how },
                Err(e) => return bad(e),
            }
        }
        keys.insert(k, e);
    }
    let end = Instant::now() + Duration::from_millis(span + 1_500);
    let mut next = n;
    while Instant::now() < end {
        // change deadlines which are not close
        for _ in 0..30 {
            let i = r.below(next);
            let k = format!("b{}", i).into_bytes();
            let e = keys[&k].clone();
            let now = now_ms();
            if e.lo > 0 && e.lo < now + 400 {
                continue;
            }
            let ks = k.clone();
            match r.below(7) {
                0 => {
                    // the deadline goes away
                    let _ = c.cmd(&[b("set"), ks, b("plain")]);
                    keys.insert(k, Known { val: Val::Str(b("plain")), lo: 0, hi: 0, how: "SET without a deadline".into() });
                }
                1 => {
                    // keeps it
                    let o = c.cmd(&[b("set"), ks, b("kept"), b("keepttl")]);
                    if !o.is_ok() {
                        return bad(format!("SET KEEPTTL gives {}", o.show()));
                    }
                    keys.insert(k, Known { val: Val::Str(b("kept")), how: format!("{}, KEEPTTL", e.how), ..e });
                }
                2 => {
                    let _ = c.cmd(&[b("del"), ks]);
                    let (cmd, val) = make(&mut r, &k);
                    let _ = c.cmd(&cmd);
                    keys.insert(k, Known { val, lo: 0, hi: 0, how: "DEL and created again".into() });
                }
                3 => {
                    // back and forth
                    let mut val = e.val.clone();
                    let _ = c.cmd(&[b("pexpireat"), k.clone(), (now + 100_000).to_string().into_bytes()]);
                    match set_deadline(&mut r, &mut c, &k, 300 + span / 3, &mut val) {
                        Ok((lo, hi, how)) => {
                            keys.insert(k, Known { val, lo, hi, how: format!("PEXPIREAT far, {}", how) });
                        }
                        Err(e) => return bad(e),
                    }
                }
                4 => {
                    // far
                    let o = c.cmd(&[b("pexpireat"), k.clone(), (now + 100_000).to_string().into_bytes()]);
                    if o.int() != Some(1) {
                        return bad(format!("PEXPIREAT gives {}", o.show()));
                    }
                    keys.insert(k, Known { lo: now + 100_000, hi: now + 100_000, how: "made far".into(), ..e });
                }
                5 => {
                    // a new key, soon due
                    let k = format!("b{}", next).into_bytes();
                    next += 1;
                    let (cmd, mut val) = make(&mut r, &k);
                    let _ = c.cmd(&cmd);
                    match set_deadline(&mut r, &mut c, &k, 500, &mut val) {
                        Ok((lo, hi, how)) => {
                            keys.insert(k, Known { val, lo, hi, how });
                        }
                        Err(e) => return bad(e),
                    }
                }
                _ => {
                    let mut val = e.val.clone();
                    let ms = 400 + r.below(span as usize) as u64;
                    match set_deadline(&mut r, &mut c, &k, ms, &mut val) {
                        Ok((lo, hi, how)) => {
                            keys.insert(k, Known { val, lo, hi, how: format!("changed, {}", how) });
                        }
                        Err(e) => return bad(e),
                    }
                }
            }
            ctx.count("deadline changes", 1);
        }
        if let Some((s, t0, t1)) = snap(ctx, srv.addr) {
            let (gone, due) = judge(ctx, name, &keys, &s, t0, t1);
            ctx.count("snapshots compared", 1);
            ctx.eval_n(keys.len() as u64);
            ctx.max("keys gone at once", gone as u64);
            ctx.max("due keys still stored, most in a snapshot", due as u64);
        }
        if ctx.violated() {
            return;
        }
        std::thread::sleep(Duration::from_millis(250));
    }
    // idle until everything with a near deadline must be gone
    let last = keys.values().filter(|k| k.hi < now_ms() + 60_000).map(|k| k.hi).max().unwrap_or(0);
    while now_ms() < last + GRACE + 100 {
        std::thread::sleep(Duration::from_millis(100));
    }
    if let Some((s, t0, t1)) = snap(ctx, srv.addr) {
        let (gone, due) = judge(ctx, name, &keys, &s, t0, t1);
        ctx.count("expired keys seen gone", gone as u64);
        ctx.count("keys kept", s.keys() as u64);
        if due > 0 && !ctx.violated() {
            ctx.inconclusive("keys still due at the end");
        }
    }
    for (k, e) in keys.iter().take(200) {
        ctx.eval(format!("{} {}", name, e.how).as_bytes());
        let _ = k;
    }
    end_of(ctx, &srv, name);
}

fn end_of(ctx: &Ctx, srv: &Server, name: &str) {
    if srv.dead() {
        ctx.violation(&format!("{}: the server died", name), &srv.log_tail());
    }
    if let Some(p) = srv.panics().first() {
        ctx.violation(&format!("{}: the server panicked: {}", name, p), &srv.log_tail());
    }
}

/// actions at the very moment a deadline passes
fn races(ctx: &Ctx, id: usize, name: &str, o: &Opts, until: Instant) {
    let srv = start(ctx, o);
    let seq = AtomicU64::new(0);
    let threads = 6;
    let slow = o.delay.is_some();
    let per = 4000;
    // (key, value, deadline range) expected to stay; keys which must vanish
    let out: Vec<(Vec<(Vec<u8>, Known)>, Vec<(Vec<u8>, u64, String)>)> = par(threads, |t| {
        let mut r = ctx.rng(1000 + (id * 100 + t) as u64);
        let mut c = srv.client();
        let (mut keep, mut vanish) = (vec![], vec![]);
        for i in 0..per {
            if Instant::now() > until || ctx.violated() {
                break;
            }
            let k = format!("r{}:{}", t, i).into_bytes();
            let ks = || k.clone();
            let n = |x: u64| x.to_string().into_bytes();
            let kind = r.below(13);
            // a value which fits the action
            let (cmd, val) = match kind {
                6 => (vec![b("set"), ks(), b("41")], Val::Str(b("41"))),
                7 => (vec![b("rpush"), ks(), b("x"), b("y")], Val::List([b("x"), b("y")].into())),
                8 => (vec![b("sadd"), ks(), b("x"), b("y")], Val::Set([b("x"), b("y")].into())),
                9 => (vec![b("hset"), ks(), b("f"), b("1"), b("g"), b("2")], Val::Hash([(b("f"), b("1")), (b("g"), b("2"))].into())),
                10 => (vec![b("zadd"), ks(), b("1"), b("x")], Val::Zset([(b("x"), 1.0)].into())),
                _ => make(&mut r, &k),
            };
            let d = now_ms() + 2 + r.below(if slow { 6 } else { 4 }) as u64;
            let rs = c.pipeline(&[cmd.clone(), vec![b("pexpireat"), ks(), n(d)]]);
            if rs.len() != 2 || rs[1].int() != Some(1) {
                // already past: an immediate deletion is as good
                if now_ms() < d {
                    ctx.violation(
                        "PEXPIREAT of an existing key, not yet due, was not accepted",
                        &format!("{}: {} at {}, deadline {}", esc_cmd(&cmd), rs.iter().map(Out::show).collect::<Vec<_>>().join(" "), now_ms(), d),
                    );
                }
                continue;
            }
            let aim = d as i64 + r.range(-2, 1);
            let micro = r.below(1000) as u64;
            while (now_ms() as i64) < aim {
                std::hint::spin_loop();
            }
            let s = Instant::now();
            while s.elapsed() < Duration::from_micros(micro) {
                std::hint::spin_loop();
            }
            let far = now_ms() + 30_000;
            let act: Cmd = match kind {
                0 | 1 | 11 => vec![b("pexpireat"), ks(), n(far)],
                2 => vec![b("set"), ks(), b("new")],
                3 => vec![b("set"), ks(), b("new"), b("pxat"), n(far)],
                4 => vec![b("set"), ks(), b("new"), b("keepttl")],
                5 => vec![b("set"), ks(), b("new"), b("nx")],
                6 => vec![b("incr"), ks()],
                7 => vec![b("lpush"), ks(), b("z")],
                8 => vec![b("sadd"), ks(), b("z")],
                9 => vec![b("hset"), ks(), b("h"), b("3")],
                10 => vec![b("zadd"), ks(), b("5"), b("z")],
                _ => vec![b("restore"), ks(), b("0"), wire::payload(&Val::Str(b("new"))), b("replace")],
            };
            let t0 = now_ms();
            let o = c.cmd(&act);
            let t1 = now_ms();
            let how = format!(
                "{}; PEXPIREAT {} ; {} sent at {} answered {} at {}",
                esc_cmd(&cmd),
                d,
                esc_cmd(&act),
                t0,
                o.show(),
                t1
            );
            // what follows from the reply: stays with this value and deadline, or vanishes
            let stays = |val: Val, e: u64| Some(Known { val, lo: e, hi: e, how: how.clone() });
            let res = match kind {
                0 | 1 | 11 => match o.int() {
                    Some(1) => stays(val, far),
                    Some(0) => None,
                    _ => {
                        ctx.violation("PEXPIREAT gives neither 0 nor 1", &how);
                        return (keep, vanish);
                    }
                },
                2 | 12 => stays(Val::Str(b("new")), 0),
                3 => stays(Val::Str(b("new")), far),
                4 => {
                    // may have inherited the deadline or not
                    if t0 > d {
                        stays(Val::Str(b("new")), 0)
                    } else if t1 < d {
                        None
                    } else {
                        continue;
                    }
                }
                5 => match &o {
                    Out::Reply(Reply::Null) => None,
                    o if o.is_ok() => stays(Val::Str(b("new")), 0),
                    _ => {
                        ctx.violation("SET NX gives neither OK nor nil", &how);
                        return (keep, vanish);
                    }
                },
                6..=10 => {
                    let (fresh, old, v) = match kind {
                        6 => (1, 42, Val::Str(b("1"))),
                        7 => (1, 3, Val::List([b("z")].into())),
                        8 => (1, -1, Val::Set([b("z")].into())),
                        9 => (1, -1, Val::Hash([(b("h"), b("3"))].into())),
                        _ => (1, -1, Val::Zset([(b("z"), 5.0)].into())),
                    };
                    match o.int() {
                        Some(x) if kind >= 8 => {
                            // the reply is the same for a fresh and an old collection
                            if x != 1 {
                                ctx.violation("an addition is not counted", &how);
                            }
                            if t0 > d {
                                stays(v, 0)
                            } else if t1 < d {
                                None
                            } else {
                                continue;
                            }
                        }
                        Some(x) if x == fresh => stays(v, 0),
                        Some(x) if x == old => None,
                        _ => {
                            ctx.violation("a write near the deadline sees neither the old value nor none", &how);
                            return (keep, vanish);
                        }
                    }
                }
                _ => unreachable!(),
            };
            seq.fetch_add(1, Ordering::Relaxed);
            match res {
                Some(k2) => {
                    if t1 < d && matches!(kind, 5..=7) {
                        ctx.violation("a key was treated as expired before its deadline", &how);
                    }
                    ctx.count("stays", 1);
                    keep.push((k, k2));
                }
                None => {
                    if t0 > d && matches!(kind, 5..=7) {
                        ctx.violation("a key was treated as live after its deadline", &how);
                    }
                    ctx.count("vanishes", 1);
                    vanish.push((k, d, how));
                }
            }
        }
        (keep, vanish)
    });
    std::thread::sleep(Duration::from_millis(1_200));
    let keep: BTreeMap<Vec<u8>, Known> = out.iter().flat_map(|o| o.0.iter().cloned()).collect();
    // a deadline 30 s ahead may have passed for the first keys of a long run
    let Some((s, t0, t1)) = snap(ctx, srv.addr) else { return };
    judge(ctx, &format!("races, {}", name), &keep, &s, t0, t1);
    while out.iter().flat_map(|o| o.1.iter()).any(|v| now_ms() < v.1 + GRACE) {
        std::thread::sleep(Duration::from_millis(50));
    }
    let Some((s, _, _)) = snap(ctx, srv.addr) else { return };
    for (k, d, how) in out.iter().flat_map(|o| o.1.iter()) {
        if let Some((v, e)) = s.get(k) {
            ctx.violation(
                &format!("races, {}: an expired key is still stored", name),
                &format!("key {} deadline {}: {}\nstored {} deadline {}", esc(k), d, how, v.show(), e),
            );
        }
    }
    for (k, _) in keep.iter() {
        ctx.eval(&[name.as_bytes(), k].concat());
    }
    for v in out.iter().flat_map(|o| o.1.iter()) {
        ctx.eval(&[name.as_bytes(), &v.0].concat());
    }
    ctx.count("races with a deadline", seq.load(Ordering::Relaxed));
    if let Some((_, k)) = keep.iter().next() {
        ctx.sample(format!("race ({}): {}", name, k.how));
    }
    end_of(ctx, &srv, name);
}

/// one key at a time on a quiet server: each step must be reclaimed by itself
fn wakes(ctx: &Ctx, id: usize, rounds: usize) {
    let srv = start(ctx, &Opts::default());
    let mut r = ctx.rng(5000 + id as u64);
    let mut c = srv.client();
    let n = |x: u64| x.to_string().into_bytes();
    let mut log: Vec<String> = vec![];
    let mut far = false;
    for round in 0..rounds {
        let k = format!("w{}", round).into_bytes();
        let now = now_ms();
        let d = now + 150 + r.below(300) as u64;
        let kind = r.below(8);
        let cmds: Vec<Cmd> = match kind {
            // nothing else has a deadline, or only a far one
            0 => vec![vec![b("set"), k.clone(), b("v"), b("pxat"), n(d)]],
            1 => vec![
                vec![b("set"), k.clone(), b("v"), b("ex"), b("1000")],
                vec![b("pexpireat"), k.clone(), n(d)],
            ],
            2 => vec![
                vec![b("set"), k.clone(), b("v"), b("ex"), b("1000")],
                vec![b("del"), k.clone()],
                vec![b("set"), k.clone(), b("v"), b("pxat"), n(d)],
            ],
            3 => vec![
                vec![b("set"), [&k[..], b"far"].concat(), b("v"), b("ex"), b("1000")],
                vec![b("rpush"), k.clone(), b("v")],
                vec![b("pexpireat"), k.clone(), n(d)],
            ],
            4 => vec![vec![b("flushall"), b("SYNC")], vec![b("set"), k.clone(), b("v"), b("pxat"), n(d)]],
            5 => vec![
                vec![b("set"), k.clone(), b("v"), b("pxat"), n(d)],
                vec![b("flushall"), b("ASYNC")],
                vec![b("set"), k.clone(), b("v"), b("pxat"), n(d)],
            ],
            6 => vec![
                vec![b("set"), k.clone(), b("v"), b("pxat"), n(d - 100)],
                vec![b("pexpireat"), k.clone(), n(d)],
            ],
            _ => vec![
                vec![b("set"), k.clone(), b("v"), b("pxat"), n(d)],
                vec![b("set"), k.clone(), b("v")],
                vec![b("pexpireat"), k.clone(), n(d)],
                vec![b("set"), k.clone(), b("w"), b("keepttl")],
            ],
        };
        far |= kind == 3;
        for cmd in &cmds {
            let o = c.cmd(cmd);
            log.push(format!("{} -> {}", esc_cmd(cmd), o.show()));
        }
        let late = now_ms() + 20 > d;
        while now_ms() + 30 < d {
            std::thread::sleep(Duration::from_millis(10));
        }
        if !late && now_ms() + 10 < d {
            let t = now_ms();
            if let Ok(s) = wire::snapshot(srv.addr, key_slot(&k)) {
                if now_ms() < d && s.get(&k).is_none() {
                    ctx.violation("a key disappeared before its deadline (quiet server)", &format!("{} at {}\n{}", d, t, log.join("\n")));
                }
            }
        }
        let gone = wait_until(Duration::from_millis(d.saturating_sub(now_ms()) + GRACE), || {
            std::thread::sleep(Duration::from_millis(150));
            wire::snapshot(srv.addr, key_slot(&k)).map_or(false, |s| s.get(&k).is_none())
        });
        if !gone {
            // is the machine responsive at all?
            if c.c("ping") == Out::Reply(Reply::Simple(b("PONG"))) {
                ctx.violation(
                    &format!("an expired key stays stored on a quiet server (deadline {}, now {})", d, now_ms()),
                    &log.join("\n"),
                );
            }
            return;
        }
        ctx.eval(format!("wake {} far {}", kind, far).as_bytes());
        ctx.count("reclaimed on a quiet server", 1);
        // sometimes let it sleep for longer
        if r.chance(1, 3) {
            std::thread::sleep(Duration::from_millis(300));
        }
    }
    end_of(ctx, &srv, "quiet server");
}

/// FLUSHALL while deadlines are set: every key with a deadline is still reclaimed
fn flushes(ctx: &Ctx, until: Instant) {
    let srv = start(ctx, &Opts { delay: Some((20, 500)), ..Default::default() });
    let last = AtomicU64::new(0);
    let keys: Vec<Vec<(Vec<u8>, u64)>> = par(5, |t| {
        let mut r = ctx.rng(7000 + t as u64);
        let mut c = srv.client();
        let mut v = vec![];
        let mut i = 0;
        while Instant::now() < until {
            if t == 0 {
                let _ = c.c(if r.chance(1, 2) { "flushall SYNC" } else { "flushall ASYNC" });
                ctx.count("flushes", 1);
                std::thread::sleep(Duration::from_millis(r.below(8) as u64));
                continue;
            }
            i += 1;
            let k = format!("f{}:{}", t, i).into_bytes();
            let d = now_ms() + 20 + r.below(400) as u64;
            let o = c.cmd(&[b("set"), k.clone(), b("v"), b("pxat"), d.to_string().into_bytes()]);
            if !o.is_ok() {
                ctx.violation("SET PXAT is refused", &o.show());
                return v;
            }
            last.fetch_max(d, Ordering::Relaxed);
            v.push((k, d));
        }
        v
    });
    while now_ms() < last.load(Ordering::Relaxed) + GRACE {
        std::thread::sleep(Duration::from_millis(50));
    }
    let Some((s, _, _)) = snap(ctx, srv.addr) else { return };
    let n: usize = keys.iter().map(Vec::len).sum();
    ctx.count("keys with a deadline set during flushes", n as u64);
    for (k, d) in keys.iter().flatten() {
        ctx.eval(k);
        if s.get(k).is_some() {
            ctx.violation("an expired key, set while FLUSHALL ran, is still stored", &format!("{} deadline {}", esc(k), d));
        }
    }
    end_of(ctx, &srv, "flushes");
}

/// deadlines that are changed or dropped all the time are forgotten: the memory of a server with a few keys does not grow
fn churn(ctx: &Ctx, r: &mut Rng) {
    let srv = start(ctx, &Opts::default());
    let mut c = srv.client();
    let day = 86_400_000u64;
    let keys: Vec<Vec<u8>> = (0..20).map(|i| format!("a rather long key name, number {}", i).into_bytes()).collect();
    let far = now_ms() + 10 * day;
    let mut n = 0;
    for way in 0..if ctx.thorough { 12 } else { 6 } {
        let way = way % 6;
        let name = ["deleted and set again", "changed by commands", "overwritten", "gone with the last element of their keys", "flushed", "overwritten by RESTORE"][way];
        let mut grew = 0;
        let mut sizes = vec![];
        for round in 0..5 {
            let mut cmds: Vec<Cmd> = vec![];
            let size = srv.rss_kb();
            sizes.push(size);
            if round > 1 {
                if size < sizes[round - 1] + 3_000 {
                    break;
                }
                grew += 1;
                if grew == 3 {
                    let (what, detail) = (format!("memory grows without bound while the deadlines of a few keys are {}", name), format!("kB: {:?}", sizes));
                    return ctx.violation(&what, &detail);
                }
            }
            for _ in 0..60_000 {
                n += 1;
                let k = r.pick(&keys).clone();
                let at = (far + n).to_string().into_bytes();
                match way {
                    0 => {
                        cmds.push(vec![b("set"), k.clone(), b("v"), b("pxat"), at]);
                        cmds.push(vec![b("del"), k]);
                    }
                    1 => {
                        if n % 10 == 1 {
                            cmds.push(vec![b("setex"), k, b("1000000"), b("v")]);
                        } else {
                            cmds.push(vec![b("pexpireat"), k, at]);
                        }
                    }
                    2 => {
                        let opt = if n % 3 == 0 { None } else { Some([b("pxat"), at]) };
                        let mut cmd = vec![b("set"), k, b("v")];
                        cmd.extend(opt.into_iter().flatten());
                        cmds.push(cmd);
                    }
                    5 => cmds.push(vec![b("restore"), k, at, wire::payload(&Val::Str(b("v"))), b("replace"), b("absttl")]),
                    4 => {
                        cmds.push(vec![b("set"), k, b("v"), b("pxat"), at]);
                        if n % 20 == 0 {
                            cmds.push(words(if n % 40 == 0 { "flushall" } else { "flushall SYNC" }));
                        }
                    }
                    _ => {
                        let k = [k, b("l")].concat();
                        cmds.push(vec![b("rpush"), k.clone(), b("v")]);
                        cmds.push(vec![b("pexpireat"), k.clone(), at]);
                        cmds.push(vec![b("lpop"), k]);
                    }
                }
            }
            for x in cmds.chunks(10_000) {
                if !matches!(c.pipeline(x).last(), Some(Out::Reply(_))) {
                    return ctx.violation("a request is not answered while deadlines change", &srv.log_tail());
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            ctx.count("deadlines changed or dropped on a few keys", 60_000);
        }
        ctx.eval(format!("churn {} {}", name, n).as_bytes());
        ctx.max("memory of a server whose deadlines change, kB", *sizes.last().unwrap());
    }
}

/// the commands that can take the last element of a key away, each with the command that makes the key
pub const LAST: [(&str, &str); 9] = [
    ("rpush K x", "lpop K 1"),
    ("lpush K x y", "rpop K 2"),
    ("hset K f v", "hdel K f"),
    ("sadd K x", "srem K x"),
    ("zadd K 1 x", "zrem K x"),
    ("zadd K 1 x", "zremrangebyrank K 0 -1"),
    ("zadd K 1 x", "zremrangebyscore K -inf +inf"),
    ("zadd K 0 x 0 y", "zremrangebylex K - +"),
    ("set K x", "del K"),
];

/// a command of `LAST` for this key
pub fn of_key(cmd: &str, key: &[u8]) -> Cmd {
    words(cmd).into_iter().map(|w| if w == b"K" { key.to_vec() } else { w }).collect()
}

/// the deadline of a key goes with the key, whichever command takes its last element
fn gone(ctx: &Ctx) {
    let srv = start(ctx, &Opts::default());
    let mut c = srv.client();
    let far = now_ms() + 864_000_000;
    // keys which are long, so that what is left of them shows
    let keys: Vec<Vec<u8>> = (0..20).map(|i| format!("{}{}", "key ".repeat(100), i).into_bytes()).collect();
    let mut n = 0u64;
    for (make, take) in LAST {
        let mut sizes = vec![];
        loop {
            sizes.push(srv.rss_kb());
            let l = sizes.len();
            // the first rounds warm the allocator up
            if l > 2 && sizes[l - 1] < sizes[l - 2] + 2_500 {
                break;
            }
            if l == 6 {
                let what = format!("memory grows without bound while keys with a deadline go away by {}", take.split(' ').next().unwrap_or(""));
                return ctx.violation(&what, &format!("{}; PEXPIREAT; {}\nkB: {:?}", make, take, sizes));
            }
            let mut cmds: Vec<Cmd> = vec![];
            for _ in 0..15_000 {
                n += 1;
                let k = &keys[n as usize % keys.len()];
                cmds.push(of_key(make, k));
                cmds.push(vec![b("pexpireat"), k.clone(), (far + n).to_string().into_bytes()]);
                cmds.push(of_key(take, k));
            }
            for x in cmds.chunks(3_000) {
                let rs = c.pipeline(x);
                if rs.len() != x.len() || rs.iter().any(Out::refused) {
                    return ctx.violation("a request is not answered, or refused, while keys come and go", &srv.log_tail());
                }
            }
            ctx.count("keys with a deadline whose last element was taken", 15_000);
        }
        ctx.eval(format!("gone {}", take).as_bytes());
    }
}

/// many keys with the same deadline, and nothing else: all of them go in time
fn mass(ctx: &Ctx) {
    let srv = start(ctx, &Opts::default());
    let mut c = srv.client();
    let n = ctx.n(30_000, 150_000);
    let d = now_ms() + ctx.n(4_000, 15_000) as u64;
    for at in (0..n).step_by(5_000) {
        let cmds: Vec<Cmd> = (at..at + 5_000)
            .map(|i| vec![b("set"), format!("mass{}", i).into_bytes(), b("v"), b("pxat"), (d + i as u64 % 50).to_string().into_bytes()])
            .collect();
        if c.pipeline(&cmds).iter().any(|o| !o.is_ok()) {
            return ctx.violation("SET PXAT is refused", &srv.log_tail());
        }
    }
    if now_ms() >= d {
        ctx.count("not judged: the machine was too slow to set many keys in time", 1);
        return;
    }
    let Some((s, _, t1)) = snap(ctx, srv.addr) else { return };
    if t1 < d && s.keys() != n {
        return ctx.violation("keys disappeared before their deadline", &format!("{} of {} keys are stored", s.keys(), n));
    }
    let mut left = n;
    while now_ms() < d + 50 + 2 * GRACE && left > 0 {
        std::thread::sleep(Duration::from_millis(200));
        let Some((s, _, _)) = snap(ctx, srv.addr) else { return };
        left = s.keys();
    }
    if left > 0 && c.c("ping") == Out::Reply(Reply::Simple(b("PONG"))) {
        return ctx.violation(
            "expired keys stay stored on a quiet server when many expire at once",
            &format!("{} of {} keys are stored {} ms after their deadline", left, n, now_ms() - d),
        );
    }
    ctx.eval(b"mass");
    ctx.count("keys that expired at once", n as u64);
    end_of(ctx, &srv, "mass expiry");
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("one evaluation: one key of one physical snapshot judged against its deadline (bulk), one write racing a deadline, one key reclaimed on a quiet server, one key given a deadline during flushes, or one key a follower got from a scripted leader; distinct: another key, command sequence or server configuration");
    ctx.assume("a reclaimer that needs more than 3 s on this machine counts as not reclaiming");
    let vs = variants();
    let until = ctx.deadline(8, 240);
    let rounds = ctx.n(10, 300);
    let n = ctx.n(1500, 20_000);
    let span = if ctx.thorough { 20_000 } else { 4_000 };
    par(15, |i| match i {
        14 => mass(ctx),
        13 => gone(ctx),
        12 => crate::follow::churn(ctx, &mut ctx.rng(201)),
        11 => churn(ctx, &mut ctx.rng(200)),
        9 | 10 => {
            let mut r = ctx.rng(90 + i as u64);
            loop {
                // without further messages in one of them: nothing else wakes the reclaimer
                crate::follow::reclaim(ctx, &mut r, i == 10);
                if Instant::now() >= until || ctx.violated() {
                    break;
                }
            }
        }
        0 | 1 => races(ctx, i, vs[i].0, &vs[i].1, until),
        2 => {
            races(ctx, i, vs[2].0, &vs[2].1, until);
        }
        3 => bulk(ctx, i, "bulk, all cores", &vs[0].1, n, span),
        4 => bulk(ctx, i, "bulk, delays", &vs[1].1, n / 3, span),
        5 => flushes(ctx, ctx.deadline(8, 40)),
        _ => wakes(ctx, i, rounds),
    });
}
