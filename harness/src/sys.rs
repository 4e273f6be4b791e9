//! C24: the real code under AddressSanitizer, ThreadSanitizer and Miri. The workloads of the other
//! checks run in processes of their own against instrumented builds; only the reports of the
//! instrumentation are judged here.
use crate::ctx::*;
use crate::gen::{self, Fam, Gen};
use crate::net;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Kind {
    name: &'static str,
    var: &'static str,
    opts: &'static str,
    dir: &'static str,
}

const ASAN: Kind = Kind {
    name: "AddressSanitizer",
    var: "ASAN_OPTIONS",
    opts: "detect_leaks=0:detect_stack_use_after_return=1:verify_asan_link_order=0:allocator_may_return_null=1:exitcode=99",
    dir: "asan",
};
const TSAN: Kind = Kind {
    name: "ThreadSanitizer",
    var: "TSAN_OPTIONS",
    // a report ends the process: nothing can hide behind the first one
    opts: "halt_on_error=1:die_after_fork=0:report_signal_unsafe=0:second_deadlock_stack=1:exitcode=98",
    dir: "tsan",
};

fn bins_of(ctx: &Ctx, k: &Kind) -> PathBuf {
    ctx.verif.join(format!("target/{}/x86_64-unknown-linux-gnu/debug", k.dir))
}

/// the text of the reports left behind
fn reports(dir: &Path) -> Vec<String> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let t = String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).into_owned();
            if !t.trim().is_empty() {
                v.push(t);
            }
        }
    }
    v
}

/// what a report says in one line
fn headline(t: &str) -> String {
    let head = t.lines().find(|l| l.contains("Sanitizer:")).unwrap_or_else(|| t.lines().next().unwrap_or(""));
    let at = t.lines().find(|l| l.contains("/repo/")).unwrap_or("");
    format!("{} {}", head.trim_matches(|c| c == '=' || c == ' '), at.trim())
}

/// field of an evidence file
fn field(text: &str, name: &str) -> u64 {
    text.split(&format!("\"{}\": ", name))
        .nth(1)
        .and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next())
        .and_then(|t| t.parse().ok())
        .unwrap_or(0)
}

/// one workload against one instrumented build
fn sub(ctx: &Ctx, k: &Kind, prop: &str, scale: f64, seed: u64) {
    let dir = scratch(&ctx.bins.scratch, "sub");
    let logs = dir.join("reports");
    std::fs::create_dir_all(&logs).expect("scratch");
    let limit = Duration::from_secs(if ctx.thorough { 600 } else { 90 });
    let mut cmd = Command::new(std::env::current_exe().expect("exe"));
    cmd.arg(prop)
        .arg("quick")
        .env("VERIF_SEED", seed.to_string())
        .env("VERIF_DIR", &dir)
        .env("VH_BIN", bins_of(ctx, k))
        .env("VH_SHIM", &ctx.bins.shim)
        .env("VH_SCALE", scale.to_string())
        .env("TMPDIR", &dir)
        .env(k.var, format!("{}:log_path={}/r", k.opts, logs.display()))
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(dir.join("out")).expect("out"))
        .stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            extern "C" {
                fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
                fn nice(n: i32) -> i32;
            }
            prctl(1, 9, 0, 0, 0);
            // the interpreter is slow enough
            nice(7);
            Ok(())
        });
    }
    let mut p = match cmd.spawn() {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(&format!("cannot start a workload: {}", e)),
    };
    let end = Instant::now() + limit;
    while matches!(p.try_wait(), Ok(None)) && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(50));
    }
    let done = p.try_wait().ok().flatten();
    if done.is_none() {
        let _ = p.kill();
        let _ = p.wait();
        ctx.count(&format!("{} workloads cut short", k.dir), 1);
    }
    let ev = std::fs::read_to_string(dir.join(format!("evidence/{}.json", prop))).unwrap_or_default();
    let n = field(&ev, "evaluations");
    for t in reports(&logs) {
        // what reaches the code through a fault injected by the shim is still a report
        ctx.violation(&format!("{} (workload of {}): {}", k.name, prop, headline(&t)), &t);
    }
    // the outcome of the workload itself belongs to the other check
    let verdict = std::fs::read_to_string(dir.join("out")).unwrap_or_default();
    ctx.eval_n(n);
    ctx.eval(format!("{}{}{}", k.dir, prop, seed).as_bytes());
    ctx.count(&format!("{}: evaluations of the workload of {}", k.dir, prop), n);
    if n == 0 {
        ctx.count(&format!("{}: workloads of {} without result", k.dir, prop), 1);
    }
    ctx.sample(format!("{} {} seed {}: {}", k.dir, prop, seed, verdict.lines().last().unwrap_or("")));
    let _ = std::fs::remove_dir_all(&dir);
}

/// every command once, in its usual forms
const FORMS: &[&str] = &[
    "PING", "set a 1", "set a 2 GET", "set a 5 KEEPTTL", "set a x NX", "set a 3 XX EX 100", "set b v PXAT 4000000000000", "get a", "get none",
    "incr a", "incrby a 5", "decr a", "decrby a 2", "incr b", "setex c 10 v", "psetex c 10000 v", "ttl c", "pttl c", "expire c 100 NX",
    "expire c 200 XX", "pexpire c 1000 GT", "expireat c 4000000000", "pexpireat c 4000000000000 LT", "exists a b none", "del b none",
    "rpush l a b c", "lpush l z", "rpushx l q", "lpushx none q", "llen l", "lrange l 0 -1", "lpop l", "rpop l 2", "get l", "lpop l 10",
    "hset h f v g w", "hget h f", "hmget h f none", "hgetall h", "hexists h f", "hsetnx h f x", "hincrby h n 4", "hdel h f none",
    "sadd s a b c", "sismember s a", "smismember s a z", "smembers s", "srem s a z", "zadd z 1 a 2 b 3 c", "zadd z XX CH 5 a", "zadd z INCR 2 b",
    "zadd z GT CH 1 a 9 d", "zrank z a", "zrevrank z a", "zrange z 0 -1 WITHSCORES", "zrange z (1 +inf BYSCORE LIMIT 0 2", "zrange z [a (z BYLEX",
    "zrange z +inf 0 BYSCORE REV", "zrevrange z 0 -1", "zrangebyscore z -inf +inf WITHSCORES LIMIT 1 1", "zrevrangebyscore z 9 (1", "zrangebylex z - +",
    "zrevrangebylex z + -", "zrem z a none", "zremrangebyrank z 0 0", "zremrangebyscore z 0 3", "zremrangebylex z - [c", "dump s", "object IDLETIME s",
    "object FREQ s", "debug object s", "info", "config get x", "set", "incrby a notanumber", "restore r 0 garbage", "nosuch command", "sadd a x",
    "flushall", "flushall sync", "get a",
];

/// what the interpreter cannot run or blames on the libraries below
fn miri_foreign(t: &str) -> bool {
    // how parking_lot passes the address of its futex
    if t.contains("incorrect c-variadic argument type for `syscall(SYS_futex") {
        return true;
    }
    // tokio's own queues: both accesses inside tokio or std
    t.contains("Data race detected")
        && t.lines().filter(|l| l.trim_start().starts_with("--> ")).take(2).all(|l| l.contains("/tokio-1.") || l.contains("/rustlib/"))
        && !t.lines().take(60).any(|l| l.contains("at /repo/"))
}

/// true if the interpreter ended the run
fn miri_report(ctx: &Ctx, log: &str, sent: &[String]) -> bool {
    if let Some(at) = log.find("error: Undefined Behavior").or_else(|| log.find("error: memory leaked")) {
        let t = &log[at..];
        if miri_foreign(t) {
            ctx.count("miri: runs ended by a report about a library", 1);
            return true;
        }
        let head: Vec<&str> = t.lines().take(3).map(str::trim).collect();
        let last = sent.len().saturating_sub(12);
        ctx.violation(
            &format!("Miri: {}", head.join(" ")),
            &format!("last requests:\n{}\n\n{}", sent[last..].join("\n"), t.chars().take(6000).collect::<String>()),
        );
        return true;
    }
    if let Some(at) = log.find("error: unsupported operation") {
        ctx.count("miri: runs ended by an operation the interpreter does not know", 1);
        eprintln!("{}", log[at..].lines().take(12).collect::<Vec<_>>().join("\n"));
        return true;
    }
    false
}

fn interp(ctx: &Ctx, i: usize, n: usize, secs: u64) {
    let mut r = ctx.rng(900 + i as u64);
    let o = Opts {
        bin: Some(ctx.verif.join("miri/run.sh")),
        slow: true,
        envs: vec![
            (
                "MIRIFLAGS".into(),
                format!("-Zmiri-disable-isolation -Zmiri-seed={}{}", r.below(100_000), if i % 4 == 3 { " -Zmiri-tree-borrows" } else { "" }),
            ),
            ("MIRI_LIMIT".into(), (secs + 120).to_string()),
        ],
        ..Default::default()
    };
    let start = || match Server::start(&ctx.bins, &o) {
        Ok(s) => Some(s),
        Err(e) => {
            if !miri_report(ctx, &e, &[]) {
                ctx.inconclusive(&format!("the interpreted server: {}", e));
            }
            None
        }
    };
    let mut srv = match start() {
        Some(s) => s,
        None => return,
    };
    let until = Instant::now() + Duration::from_secs(secs);
    let mut g = Gen::new(ctx.rng(950 + i as u64), 3, now_ms());
    let mut c = srv.client();
    let mut second = srv.client();
    let mut sent: Vec<String> = vec![];
    let mut k = i;
    let mut replies = 0;
    while Instant::now() < until && !ctx.violated() {
        let (bytes, what) = if k < FORMS.len() {
            (encode(&words(FORMS[k])), FORMS[k].to_string())
        } else if r.chance(1, 8) {
            let (mut d, kind) = net::garbage(&mut r, "{m}");
            d.truncate(600);
            (d.clone(), format!("{}: {}", kind, esc(&d)))
        } else if r.chance(1, 3) {
            let c = net::binary(&mut r, "m", 40);
            (encode(&c), esc_cmd(&c))
        } else {
            let fams = [Fam::Str, Fam::List, Fam::Hash, Fam::Set, Fam::Zset, Fam::Mixed, Fam::Expiry];
            let c = gen::render(&g.cmd(fams[r.below(7)]), "m");
            if c[0].starts_with(b"@") || c.iter().map(Vec::len).sum::<usize>() > 500 {
                continue;
            }
            (encode(&c), esc_cmd(&c))
        };
        k += n;
        sent.push(what);
        let cl = if r.chance(1, 4) { &mut second } else { &mut c };
        // sometimes two requests arrive together, sometimes one arrives in pieces
        let mut ok = true;
        let mut expect = 1;
        if r.chance(1, 4) && bytes.len() > 2 {
            let cut = 1 + r.below(bytes.len() - 1);
            ok = cl.send_raw(&bytes[..cut]).is_ok();
            std::thread::sleep(Duration::from_millis(r.below(60) as u64));
            ok = ok && cl.send_raw(&bytes[cut..]).is_ok();
        } else {
            let mut all = bytes;
            if r.chance(1, 5) {
                all.extend(encode(&words("get a")));
                expect = 2;
            }
            ok = ok && cl.send_raw(&all).is_ok();
        }
        for _ in 0..expect {
            ok = ok && matches!(cl.recv_within(Duration::from_secs(if sent.last().map_or(false, |s| s.contains(": ")) { 1 } else { 30 })), Out::Reply(_));
            if ok {
                replies += 1;
            }
        }
        if !ok {
            std::thread::sleep(Duration::from_millis(300));
            if srv.dead() {
                miri_report(ctx, &srv.log_text(), &sent);
                if ctx.violated() {
                    return;
                }
                srv = match start() {
                    Some(s) => s,
                    None => break,
                };
                c = srv.client();
                second = srv.client();
            } else {
                *cl = srv.client();
            }
        }
    }
    srv.stop();
    miri_report(ctx, &srv.log_text(), &sent);
    ctx.eval_n(replies);
    for s in &sent {
        ctx.eval(format!("miri{}", s).as_bytes());
    }
    ctx.count("miri: requests sent", sent.len() as u64);
    ctx.count("miri: replies", replies);
    if i == 0 {
        ctx.sample(format!("miri: {}", sent.iter().take(8).cloned().collect::<Vec<_>>().join(" | ")));
    }
}

/// the instrumentation works: a report is seen when there is one
fn selftest(ctx: &Ctx) {
    for k in [&ASAN, &TSAN] {
        let f = bins_of(ctx, k).join("server");
        let t = std::fs::read(&f).unwrap_or_default();
        let sym: &[u8] = if k.dir == "asan" { b"__asan_report_load8" } else { b"__tsan_read8" };
        if !t.windows(sym.len()).any(|w| w == sym) {
            ctx.inconclusive(&format!("{} is not instrumented", f.display()));
        }
    }
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("one evaluation: one evaluation of a workload of another check (its request scripts, hostile connections, command sequences, concurrent histories, snapshots, streams) run against a server built with AddressSanitizer or ThreadSanitizer, or one reply of a server interpreted by Miri; distinct: workload and seed, or request text for Miri");
    ctx.assume("only reports of the instrumentation are judged; leaks are not errors; Miri runs the server on one thread with 64 slots, without fork");
    selftest(ctx);
    let _ = std::io::stderr().flush();
    let asan = ["C01", "C02", "C09", "C17", "C16", "C19"];
    let tsan = ["C13", "C14", "C18", "C25", "C20", "C19"];
    let rounds = ctx.n(1, 12);
    std::thread::scope(|s| {
        for i in 0..4 {
            s.spawn(move || interp(ctx, i, 4, ctx.n(40, 900) as u64));
        }
        s.spawn(|| {
            let mut jobs: Vec<(&Kind, &str, u64)> = vec![];
            for n in 0..rounds {
                let seed = ctx.seed * 100 + n as u64;
                for i in 0..asan.len().max(tsan.len()) {
                    if let Some(p) = tsan.get(i) {
                        jobs.push((&TSAN, p, seed));
                    }
                    if let Some(p) = asan.get(i) {
                        jobs.push((&ASAN, p, seed));
                    }
                }
            }
            let next = std::sync::atomic::AtomicUsize::new(0);
            par(4, |_| loop {
                let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if j >= jobs.len() || ctx.violated() {
                    break;
                }
                let (k, p, seed) = jobs[j];
                sub(ctx, k, p, if ctx.thorough { 1.0 } else { 0.35 }, seed);
            });
        });
    });
}
