//! Connections: framing (C01), hostile input (C02), the connection limit (C03).
use crate::conc;
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

type Cmd = Vec<Vec<u8>>;

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32;
}

fn sockopt(s: &TcpStream, name: i32, val: &[i32]) {
    let bytes: Vec<u8> = val.iter().flat_map(|v| v.to_ne_bytes()).collect();
    unsafe {
        setsockopt(s.as_raw_fd(), 1, name, bytes.as_ptr(), bytes.len() as u32);
    }
}

/// the close will reset the connection
pub fn reset_on_close(s: &TcpStream) {
    sockopt(s, 13, &[1, 0]);
}

fn small_buffers(s: &TcpStream) {
    sockopt(s, 8, &[100_000]);
}

fn start(ctx: &Ctx, o: &Opts) -> Server {
    Server::start(&ctx.bins, o).unwrap_or_else(|e| panic!("{}", Inconclusive(e)))
}

// ---------------------------------------------------------------- C01

fn nasty(r: &mut Rng, max: usize) -> Vec<u8> {
    const P: [&[u8]; 27] = [
        b"\r\n\r\n", b"a\r\n\r\n", b"\n\n", b"\r\r\n", b"x\r\n",
        b"", b"\r\n", b"\r", b"\n", b"+OK\r\n", b"-ERR x\r\n", b"$-1\r\n", b"$5\r\nhello\r\n", b"*2\r\n$1\r\na\r\n$1\r\nb\r\n", b":1\r\n",
        b"*-1\r\n", b"\0", b"\0\0\0\0", b"\xff\xfe", b"{", b"}", b"{}", b"$", b"*", b" ", b"-0", b"nan",
    ];
    match r.below(10) {
        0..=4 => r.pick(&P).to_vec(),
        5 => {
            let n = r.below(20);
            r.bytes(n)
        }
        6 => [r.pick(&P).to_vec(), r.pick(&P).to_vec(), b("x")].concat(),
        7 => {
            let n = r.below(max);
            r.bytes(n)
        }
        8 => b(&r.range(-1_000_000, 1_000_000).to_string()),
        _ => b("ordinary"),
    }
}

/// commands carrying arbitrary bytes everywhere
pub fn binary(r: &mut Rng, prefix: &str, max: usize) -> Cmd {
    let k = match r.below(4) {
        0 => b(prefix),
        1 => [b(prefix), b("\r\n$-1\r\n")].concat(),
        2 => [b(prefix), vec![0, 255, 13, 10]].concat(),
        _ => [b(prefix), b("+OK\r\n")].concat(),
    };
    let ty = ["s", "l", "h", "t", "z"];
    let t = r.below(5);
    let k = [k, b(ty[t])].concat();
    let v = nasty(r, max);
    let m = nasty(r, 64);
    match t {
        0 => match r.below(6) {
            0..=2 => vec![b("set"), k, v],
            3 => vec![b("set"), k, v, b("GET")],
            4 => vec![b("del"), k],
            _ => vec![b("get"), k],
        },
        1 => match r.below(6) {
            0 | 1 => vec![b("rpush"), k, v, m],
            2 => vec![b("lpush"), k, v],
            3 => vec![b("lpop"), k],
            4 => vec![b("rpop"), k, b("2")],
            _ => vec![b("lrange"), k, b("0"), b("-1")],
        },
        2 => match r.below(6) {
            0 | 1 => vec![b("hset"), k, m, v],
            2 => vec![b("hget"), k, m],
            3 => vec![b("hdel"), k, m],
            4 => vec![b("hmget"), k, m, v],
            _ => vec![b("hgetall"), k],
        },
        3 => match r.below(5) {
            0 | 1 => vec![b("sadd"), k, m, v],
            2 => vec![b("srem"), k, m],
            3 => vec![b("smismember"), k, m, v],
            _ => vec![b("smembers"), k],
        },
        _ => match r.below(6) {
            0 | 1 => vec![b("zadd"), k, b(&r.range(-9, 9).to_string()), m],
            2 => vec![b("zrank"), k, m],
            3 => vec![b("zrem"), k, m],
            4 => vec![b("zrevrange"), k, b("0"), b("3")],
            _ => vec![b("zrange"), k, b("0"), b("-1"), b("WITHSCORES")],
        },
    }
}

struct Script {
    cmds: Vec<Cmd>,
    bytes: Vec<u8>,
    /// where each request ends
    ends: Vec<usize>,
    expect: Vec<Exp>,
}

/// unknown commands, whose names come back in the error
fn unknown(r: &mut Rng) -> Cmd {
    vec![b(r.pick(&["nosuchcommand", "no\r\nsuch", "x\r\n+OK\r\n", "\r\n", "a b", "$1\r\na", "nö\nsuch"])), nasty(r, 10)]
}

fn script(r: &mut Rng, m: &mut Model, prefix: &str, n: usize, max: usize) -> Script {
    let mut s = Script { cmds: vec![], bytes: vec![], ends: vec![], expect: vec![] };
    let fam = r.below(6);
    let mixed = r.chance(1, 2);
    for i in 0..n {
        let c = match r.below(12) {
            0 => vec![b("PING")],
            1 => unknown(r),
            2..=7 => binary(r, prefix, max),
            _ => conc::menu(r, fam, &b(&format!("{}k{}", prefix, fam)), &b(&format!("{}o", prefix)), &format!("v{}", i)),
        };
        if c[0] == b"PING" && r.chance(1, 3) {
            // the inline form
            s.bytes.extend_from_slice(b"PING\r\n");
        } else {
            s.bytes.extend_from_slice(&if mixed { encode_mixed(&c) } else { encode(&c) });
        }
        let e = if c[0] == b"PING" {
            Exp::Text(b("PONG"))
        } else if c[0].starts_with(b"n") || !c[0].iter().all(u8::is_ascii_alphanumeric) || c[0] == b"x\r\n+OK\r\n" {
            Exp::Refused
        } else {
            m.apply(&c, 1_000_000_000_000, None)
        };
        s.expect.push(e);
        s.cmds.push(c);
        s.ends.push(s.bytes.len());
    }
    s
}

fn judge(ctx: &Ctx, c: &mut Client, s: &Script, how: &str) -> bool {
    judge_some(ctx, c, s, 0, s.expect.len(), how)
}

fn judge_some(ctx: &Ctx, c: &mut Client, s: &Script, from: usize, to: usize, how: &str) -> bool {
    for (i, e) in s.expect.iter().enumerate().take(to).skip(from) {
        let o = c.recv();
        // a refusal is an answer too: the connection must survive it here
        let ok = matches!(o, Out::Reply(_)) && e.ok(&o);
        if !ok {
            let sent: Vec<String> = s.cmds.iter().map(|c| esc_cmd(c)).collect();
            ctx.violation(
                &format!("request {} of {} ({}) answered {}, expected {} [{}]", i + 1, s.cmds.len(), esc_cmd(&s.cmds[i]), o.show(), e.show(), how),
                &format!("delivery: {}\nrequests:\n{}", how, sent.join("\n")),
            );
            return false;
        }
    }
    true
}

/// nothing more comes, the connection is in step
fn in_step(ctx: &Ctx, c: &mut Client, s: &Script, how: &str) -> bool {
    let o = c.c("PING");
    if o != Out::Reply(Reply::Simple(b("PONG"))) || !c.leftover().is_empty() {
        ctx.violation(
            &format!("after its replies the connection is out of step: PING answered {} with {} more bytes [{}]", o.show(), c.leftover().len(), how),
            &s.cmds.iter().map(|c| esc_cmd(c)).collect::<Vec<_>>().join("\n"),
        );
        return false;
    }
    true
}

fn deliver(ctx: &Ctx, srv: &Server, c: &mut Client, r: &mut Rng, s: &Script, mode: usize) -> bool {
    let pause = |us: u64| std::thread::sleep(Duration::from_micros(us));
    let fail = |c: &mut Client, how: &str| {
        ctx.violation(&format!("the connection broke while requests were sent [{}]", how), &srv.log_tail());
        *c = srv.client();
        false
    };
    let mut first = 0;
    let (how, sent) = match mode {
        0 => ("one write".to_string(), c.send_raw(&s.bytes).is_ok()),
        1 => {
            let mut ok = true;
            for (i, x) in s.bytes.iter().enumerate() {
                ok = ok && c.send_raw(&[*x]).is_ok();
                if s.bytes.len() < 600 || i % 16 == 0 {
                    pause(30);
                }
            }
            ("byte by byte".to_string(), ok)
        }
        _ => {
            let mut at = 0;
            let mut cuts = vec![];
            let mut ok = true;
            let mut got = 0;
            let scale = *r.pick(&[3usize, 30, 700, 40000]);
            while at < s.bytes.len() {
                let n = (1 + r.below(scale)).min(s.bytes.len() - at);
                ok = ok && c.send_raw(&s.bytes[at..at + n]).is_ok();
                at += n;
                cuts.push(at.to_string());
                let full = s.ends.iter().filter(|e| **e <= at).count();
                if ok && full > got && r.chance(1, 3) {
                    let how = format!("{} bytes sent, the rest not yet", at);
                    if !judge_some(ctx, c, s, got, full, &how) {
                        return false;
                    }
                    got = full;
                }
                if r.chance(1, 2) && cuts.len() < 3000 {
                    pause(r.below(120) as u64);
                }
            }
            cuts.truncate(200);
            first = got;
            (format!("cut at {}", cuts.join(",")), ok)
        }
    };
    if !sent {
        return fail(c, &how);
    }
    judge_some(ctx, c, s, first, s.expect.len(), &how) && in_step(ctx, c, s, &how)
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("one evaluation: one script of requests (binary keys, fields, members, values, unknown commands, pings) delivered in one way (one write, byte by byte, random cuts, every single cut point, slow reader), every reply parsed strictly and compared with the model, the connection then checked to be in step; distinct: bytes and cuts differ");
    let until = ctx.deadline(16, 600);
    let a = start(ctx, &Opts::default());
    let d = start(ctx, &Opts { delay: Some((50, 200)), cores: Some("0,1".into()), ..Default::default() });
    let seq = AtomicU64::new(0);
    let cuts = AtomicU64::new(0);
    par(10, |t| {
        let srv = if t % 3 == 2 { &d } else { &a };
        let mut r = ctx.rng(t as u64);
        let mut c = srv.client();
        let mut m = Model::new();
        let mut first = t < 4;
        while Instant::now() < until && !ctx.violated() {
            let n = seq.fetch_add(1, Ordering::Relaxed);
            let prefix = format!("p{}.{}.", t, n % 50);
            // a clean start
            let mut del: Cmd = m.map.keys().cloned().collect();
            if !del.is_empty() {
                del.insert(0, b("del"));
                let want = del.len() as i64 - 1;
                let o = c.cmd(&del);
                if o.int() != Some(want) {
                    ctx.violation(&format!("DEL of {} keys with arbitrary names answered {}", want, o.show()), &esc_cmd(&del));
                    return;
                }
                m = Model::new();
            }
            if first || t == 0 || r.chance(1, 12) {
                first = false;
                // every cut point of a short script
                let s = script(&mut r, &mut m, &prefix, 2, 12);
                if s.bytes.len() > 400 {
                    if c.send_raw(&s.bytes).is_err() || !judge(ctx, &mut c, &s, "one write") {
                        break;
                    }
                    continue;
                }
                // the effects repeat: judge the framing only
                let mut reps = vec![];
                for cut in 0..=s.bytes.len() {
                    let how = format!("cut at {}", cut);
                    let _ = c.send_raw(&s.bytes[..cut]);
                    if cut == 0 {
                        let _ = c.send_raw(&s.bytes);
                        if !judge(ctx, &mut c, &s, &how) {
                            return;
                        }
                    } else {
                        let mut s2 = Script { cmds: s.cmds.clone(), bytes: vec![], ends: s.ends.clone(), expect: vec![] };
                        for x in &s.cmds {
                            s2.expect.push(if x[0] == b"PING" {
                                Exp::Text(b("PONG"))
                            } else if x[0].starts_with(b"n") || !x[0].iter().all(u8::is_ascii_alphanumeric) {
                                Exp::Refused
                            } else {
                                m.apply(x, 1_000_000_000_000, None)
                            });
                        }
                        // what is complete is answered before the rest is there
                        let full = s.ends.iter().filter(|e| **e <= cut).count();
                        let early = format!("{}, the rest not yet sent", how);
                        if !judge_some(ctx, &mut c, &s2, 0, full, &early) {
                            return;
                        }
                        if full == 0 {
                            std::thread::sleep(Duration::from_micros(150));
                        }
                        let _ = c.send_raw(&s.bytes[cut..]);
                        if !judge_some(ctx, &mut c, &s2, full, s2.expect.len(), &how) {
                            return;
                        }
                        ctx.count("requests answered while the next one was cut", full as u64);
                    }
                    reps.push(cut);
                    cuts.fetch_add(1, Ordering::Relaxed);
                    ctx.eval(&[&s.bytes[..], &cut.to_le_bytes()].concat());
                }
                if !in_step(ctx, &mut c, &s, "every cut") {
                    return;
                }
                continue;
            }
            let (len, max) = *r.pick(&[(3, 30), (12, 300), (60, 300), (12, 70_000), (300, 40)]);
            let s = script(&mut r, &mut m, &prefix, len, max);
            let mode = match r.below(5) {
                0 => 0,
                1 if s.bytes.len() < 4000 => 1,
                _ => 2,
            };
            if n % 500 == 3 {
                ctx.sample(s.cmds.iter().map(|c| esc_cmd(c)).collect::<Vec<_>>().join("; "));
            }
            if !deliver(ctx, srv, &mut c, &mut r, &s, mode) {
                break;
            }
            ctx.count(["scripts_one_write", "scripts_byte_by_byte", "scripts_random_cuts"][mode], 1);
            ctx.count("requests", s.cmds.len() as u64);
            ctx.eval(&[&s.bytes[..], &[mode as u8], &n.to_le_bytes()].concat());
        }
    });
    ctx.count("single_cut_points", cuts.load(Ordering::Relaxed));
    if !ctx.violated() {
        big(ctx, &a);
    }
    for s in [&a, &d] {
        if s.dead() {
            ctx.violation("the server died", &s.log_tail());
        }
    }
}

/// large payloads, and replies which pile up while the client does not read
fn big(ctx: &Ctx, srv: &Server) {
    par(6, |t| {
        let mut r = ctx.rng(70 + t as u64);
        let rounds = ctx.n(2, 12);
        for round in 0..rounds {
            let mut c = srv.client();
            if t < 3 {
                let n = *r.pick(&[8191, 8192, 8193, 65_535, 65_536, 1 << 20, 3 << 20, 9 << 20]) + r.below(3);
                let n = if round == 0 && t == 0 { (9 << 20) + 5 } else { n };
                let v = r.bytes(n);
                let k = b(&format!("big{}", t));
                let mut data = encode(&[b("set"), k.clone(), v.clone()]);
                data.extend(encode(&[b("get"), k.clone()]));
                data.extend(encode(&[b("rpush"), [k.clone(), b("l")].concat(), v.clone(), b("tail")]));
                data.extend(encode(&[b("rpop"), [k.clone(), b("l")].concat(), b("2")]));
                data.extend(encode(&[b("PING")]));
                let mut at = 0;
                let cut = *r.pick(&[1000, 20_000, 1 << 20, 1 << 24]);
                let mut w = c.stream.try_clone().expect("clone");
                let h = std::thread::spawn(move || {
                    while at < data.len() {
                        let e = (at + cut).min(data.len());
                        if w.write_all(&data[at..e]).is_err() {
                            return;
                        }
                        at = e;
                    }
                });
                let want = [
                    Exp::Ok,
                    Exp::Text(v.clone()),
                    Exp::Int(2),
                    Exp::Arr(vec![Exp::Text(b("tail")), Exp::Text(v.clone())]),
                    Exp::Text(b("PONG")),
                ];
                for (i, e) in want.iter().enumerate() {
                    let o = c.recv_within(Duration::from_secs(30));
                    if !e.ok(&o) {
                        let got = match &o {
                            Out::Reply(Reply::Bulk(x)) => format!("a bulk of {} bytes", x.len()),
                            o => o.show(),
                        };
                        ctx.violation(&format!("reply {} to a payload of {} bytes is wrong: {}", i, n, got), &srv.log_tail());
                        return;
                    }
                }
                let _ = h.join();
                ctx.count("large_payloads", 1);
                ctx.max("largest_payload", n as u64);
                // one request with very many arguments
                let n = if round == 0 && t == 0 { 140_001 } else { 20_000 + r.below(60_000) };
                let k = [k, b("many")].concat();
                let mut cmd = vec![b("rpush"), k.clone()];
                cmd.extend((0..n).map(|i| format!("e{}", i).into_bytes()));
                let ask: [Cmd; 4] = [
                    cmd,
                    vec![b("llen"), k.clone()],
                    vec![b("lrange"), k.clone(), b("-2"), b("-1")],
                    vec![b("lpop"), k.clone(), n.to_string().into_bytes()],
                ];
                let all = |from: usize| Exp::Arr((from..n).map(|i| Exp::Text(format!("e{}", i).into_bytes())).collect());
                let want = [Exp::Int(n as i64), Exp::Int(n as i64), all(n - 2), all(0)];
                for (cmd, e) in ask.iter().zip(&want) {
                    let _ = c.send_raw(&encode(cmd));
                    let o = c.recv_within(Duration::from_secs(60));
                    if !e.ok(&o) {
                        let got: String = o.show().chars().take(200).collect();
                        let what = format!("after a request with {} arguments, {} gives {}", n + 2, esc_cmd(&cmd[..cmd.len().min(4)]), got);
                        ctx.violation(&what, &srv.log_tail());
                        return;
                    }
                }
                ctx.max("most_arguments", n as u64 + 2);
            } else {
                // many requests, the reader starts late and reads slowly
                small_buffers(&c.stream);
                // more replies than the sockets hold, so writes are cut short
                let size = *r.pick(&[300usize, 5_000, 60_000, 70_000, 1_100_000]) + r.below(9);
                let n = (12_000_000 / size).max(12);
                let k = format!("pile{}", t);
                let mut content = r.bytes(size);
                if !c.cmd(&[b("set"), b(&k), content.clone()]).is_ok() {
                    ctx.violation(&format!("SET of {} bytes is refused", size), "");
                    return;
                }
                let reqs: Vec<u8> = (0..n).flat_map(|i| encode(&words(&if i % 2 == 0 { format!("get {}", k) } else { format!("exists {}", k) }))).collect();
                let mut w = c.stream.try_clone().expect("clone");
                let h = std::thread::spawn(move || {
                    let _ = w.write_all(&reqs);
                });
                std::thread::sleep(Duration::from_millis(150 + r.below(300) as u64));
                for i in 0..n {
                    let o = c.recv_within(Duration::from_secs(30));
                    let ok = if i % 2 == 0 { matches!(&o, Out::Reply(Reply::Bulk(x)) if *x == content) } else { o.int() == Some(1) };
                    if !ok {
                        let got = match &o {
                            Out::Reply(Reply::Bulk(x)) => format!("a bulk of {} bytes", x.len()),
                            o => o.show(),
                        };
                        ctx.violation(&format!("reply {} of {} is wrong, when the reader was late and the value has {} bytes", i, n, size), &got);
                        return;
                    }
                }
                let _ = h.join();
                content.clear();
                let _ = c.cmd(&[b("del"), b(&k)]);
                ctx.count("replies_that_piled_up", n as u64);
                let n = 8_000;
                let big = "z".repeat(300);
                let k = format!("slow{}", t);
                let mut data = vec![];
                for i in 0..n {
                    data.extend(encode(&words(&format!("set {} {}{} GET", k, big, i))));
                }
                let _ = c.c(&format!("del {}", k));
                let mut w = c.stream.try_clone().expect("clone");
                let h = std::thread::spawn(move || {
                    let _ = w.write_all(&data);
                });
                std::thread::sleep(Duration::from_millis(100 + r.below(300) as u64));
                for i in 0..n {
                    if i % 2000 == 0 {
                        std::thread::sleep(Duration::from_millis(r.below(10) as u64));
                    }
                    let o = c.recv();
                    let ok = if i == 0 {
                        o == Out::Reply(Reply::Null)
                    } else {
                        o.reply().and_then(Reply::text) == Some(b(&format!("{}{}", big, i - 1)))
                    };
                    if !ok {
                        ctx.violation(&format!("reply {} of {} to a slow reader is wrong", i, n), &o.show());
                        return;
                    }
                }
                let _ = h.join();
                ctx.count("slow_reader_replies", n as u64);
            }
            ctx.eval(format!("big {} {}", t, round).as_bytes());
        }
    });
}

// ---------------------------------------------------------------- C02

/// well-formed but extreme commands on keys of its own
fn extreme(r: &mut Rng, tag: &str) -> Cmd {
    let mut g = Gen::new(r.clone(), 3, now_ms());
    let fam = *r.pick(&[Fam::Str, Fam::List, Fam::Hash, Fam::Set, Fam::Zset, Fam::Mixed, Fam::Expiry]);
    let c = if r.chance(1, 4) {
        const L: [&str; 44] = [
            // counts which fit a word but not the memory
            "lpop K 8589934592",
            "rpop K 1099511627776",
            "lpop K 281474976710656",
            "zrangebyscore K -inf +inf LIMIT 0 1099511627776",
            "zrange K 0 1099511627776",
            "lrange K 0 281474976710656",
            "rpush K 1 2 3",
            "zrangebylex K a_bound_which_is_none_at_all_and_is_longer_than_others_of_this_kind +",
            "zrangebyscore K a_number_which_is_none_at_all_and_is_longer_than_others_of_this_kind 1",
            "syncsnapshot 1099511627776",
            "lrange K -9223372036854775808 9223372036854775807",
            "lpop K 9223372036854775807",
            "rpop K 18446744073709551615",
            "zrange K -9223372036854775808 -9223372036854775808",
            "zrangebyscore K -inf +inf LIMIT 9223372036854775807 9223372036854775807",
            "zrangebyscore K -inf +inf LIMIT -1 -1",
            "zrevrangebyscore K nan nan",
            "zrangebyscore K (inf (-inf",
            "zrangebyscore K 5 1",
            "zremrangebyscore K 5 1",
            "zrangebylex K [ [",
            "zrangebylex K + -",
            "zrangebylex K (z [a",
            "zremrangebylex K [z [a",
            "zrevrangebylex K [a [z",
            "zremrangebyrank K 9223372036854775807 -9223372036854775808",
            "zadd K nan a",
            "zadd K inf a -inf b inf c",
            "zadd K INCR inf a",
            "incrby K 9223372036854775807",
            "decrby K -9223372036854775808",
            "hincrby K f 9223372036854775807",
            "expire K 9223372036854775807",
            "pexpire K -9223372036854775808",
            "expireat K -1",
            "set K v EX 9223372036854775807",
            "set K v PXAT 18446744073709551615",
            "setex K -9223372036854775808 v",
            "debug object",
            "object IDLETIME",
            "syncsnapshot 99999",
            "syncsnapshot -1",
            "synccmd",
            "config get",
        ];
        words(r.pick(&L)).into_iter().map(|w| if w == b"K" { b(&format!("{}K", tag)) } else { w }).collect()
    } else {
        render(&g.cmd(fam), tag)
    };
    r.next();
    *r = g.r.fork(r.next());
    c
}

/// bytes no honest client sends
pub fn garbage(r: &mut Rng, tag: &str) -> (Vec<u8>, &'static str) {
    let base = encode(&extreme(r, tag));
    match r.below(20) {
        0 => {
            let n = r.below(3000);
            (r.bytes(n), "random bytes")
        }
        1 => (b("*1\r\n").repeat(1 + r.below(200_000)), "deep nesting"),
        2 => (b("*2\r\n").repeat(1 + r.below(50_000)), "deep nesting of pairs"),
        3 => {
            // every magnitude: what is too large for the machine differs from what overflows
            let mag = format!("{}{}", 1 + r.below(9), "0".repeat(r.below(22)));
            let n = if r.chance(1, 2) { &mag[..] } else { *r.pick(&["999999999", "2147483648", "4294967296", "9223372036854775807", "18446744073709551615", "99999999999999999999999", "-1", "-2", "-9223372036854775808", "", "1e9", "+1", "0"]) };
            let t = *r.pick(&["*", "$", ":", "+", "-"]);
            let tail = *r.pick(&["", "$4\r\nPING\r\n", "x", "\r\n", "*1\r\n"]);
            (b(&format!("{}{}\r\n{}", t, n, tail)), "absurd length")
        }
        4 => {
            let mag = format!("{}{}", 1 + r.below(9), "0".repeat(r.below(20)));
            let n = if r.chance(1, 2) { &mag[..] } else { *r.pick(&["999999999", "4294967296", "9223372036854775807", "9223372036854775806", "-1", "-2", "536870912"]) };
            (b(&format!("*3\r\n$3\r\nset\r\n${}\r\nk\r\n$1\r\nv\r\n", n)), "absurd bulk length")
        }
        5 => {
            let mut v = base;
            let n = r.below(v.len() + 1);
            v.truncate(n);
            (v, "truncated request")
        }
        6 | 7 => {
            let mut v = base;
            for _ in 0..1 + r.below(4) {
                let i = r.below(v.len());
                v[i] = r.next() as u8;
            }
            (v, "corrupted request")
        }
        8 => {
            let mut v = base;
            let i = r.below(v.len());
            let n = r.below(8);
            let x = r.bytes(n);
            v.splice(i..i, x);
            (v, "inserted bytes")
        }
        9 => {
            let mut v = base;
            let i = r.below(v.len());
            let j = (i + r.below(6)).min(v.len());
            v.drain(i..j);
            (v, "removed bytes")
        }
        10 => {
            let n = 1 + r.below(2_000_000);
            (vec![*r.pick(&[b'*', b'$', b'+', b'a', b'\r', 0, b'1']); n], "endless line")
        }
        11 => {
            let n = if r.chance(1, 2) { 1 + r.below(100_000) as u64 } else { r.next() >> r.below(62) };
            let inner = if r.chance(1, 4) { "*1\r\n" } else { "" };
            (b(&format!("{}*{}\r\n{}", inner, n, r.pick(&["", "$3\r\ndel\r\n"]))), "array which never comes")
        }
        12 => {
            let n = 1 + r.below(60_000);
            let mut v = b(&format!("*{}\r\n", n));
            v.extend(b("$-1\r\n").repeat(n));
            (v, "array of nulls")
        }
        13 => {
            let n = 1 + r.below(60_000);
            let mut v = b(&format!("*{}\r\n$3\r\ndel\r\n", n + 1));
            v.extend(b("$0\r\n\r\n").repeat(n));
            (v, "many empty arguments")
        }
        14 => (b("*0\r\n").repeat(1 + r.below(100)), "empty arrays"),
        15 => (b("*1\r\n$0\r\n\r\n"), "empty command"),
        16 => (b("*1\r\n*1\r\n$4\r\nPING\r\n"), "nested command"),
        17 => (b("*2\r\n:1\r\n:2\r\n"), "integers"),
        18 => {
            // a valid RESTORE around bytes which are no value
            let mut p = wire::payload(&Gen::new(r.fork(3), 2, 0).val());
            for _ in 0..1 + r.below(6) {
                if p.is_empty() {
                    break;
                }
                let i = r.below(p.len());
                match r.below(4) {
                    0 => p[i] = r.next() as u8,
                    1 => {
                        p.truncate(i);
                    }
                    2 => p.insert(i, r.next() as u8),
                    _ => {
                        let e = (i + 8).min(p.len());
                        for x in &mut p[i..e] {
                            *x = 0xff;
                        }
                    }
                }
            }
            let mut v = encode(&[b("restore"), b(&format!("{}R", tag)), b("0"), p, b("REPLACE")]);
            for c in ["dump KR", "lrange KR 0 -1", "hgetall KR", "smembers KR", "zrange KR 0 -1", "get KR", "zadd KR 1 x", "object IDLETIME KR", "object FREQ KR"] {
                v.extend(encode(&words(&c.replace("KR", &format!("{}R", tag)))));
            }
            (v, "RESTORE of damaged bytes")
        }
        _ => (base, "extreme arguments"),
    }
}

struct Canary {
    name: String,
    m: Model,
}

/// an honest client: what it stored is there, what it asks is answered
fn canary(ctx: &Ctx, srv: &Server, id: usize, tag: &str, stop: &AtomicBool, n: &AtomicU64, worst: &AtomicU64) {
    let mut r = ctx.rng(500 + id as u64);
    let mut k = Canary { name: format!("{}canary{}", tag, id), m: Model::new() };
    let mut c = srv.client();
    while !stop.load(Ordering::Relaxed) && !ctx.violated() {
        let f = r.below(6);
        let key = b(&format!("{}.{}", k.name, f));
        let cmd = conc::menu(&mut r, f, &key, &b(&format!("{}.o", k.name)), &format!("v{}", n.load(Ordering::Relaxed)));
        let t = Instant::now();
        let o = c.cmd(&cmd);
        let e = k.m.apply(&cmd, 1_000_000_000_000, Some(&o));
        n.fetch_add(1, Ordering::Relaxed);
        worst.fetch_max(t.elapsed().as_millis() as u64, Ordering::Relaxed);
        if !matches!(o, Out::Reply(_)) || !e.ok(&o) {
            ctx.violation(
                &format!("while another client misbehaves, {} of an honest client answered {}, expected {}", esc_cmd(&cmd), o.show(), e.show()),
                &srv.log_tail(),
            );
            return;
        }
        if r.chance(1, 40) {
            std::thread::sleep(Duration::from_millis(1));
        }
        if r.chance(1, 400) {
            c = srv.client();
        }
    }
    // everything stored is still there
    let keys: Vec<Vec<u8>> = k.m.map.keys().cloned().collect();
    for key in keys {
        for cmd in k.m.readback(&key) {
            let o = c.cmd(&cmd);
            let e = k.m.apply(&cmd, 1_000_000_000_000, Some(&o));
            if !matches!(o, Out::Reply(_)) || !e.ok(&o) {
                ctx.violation(&format!("data of an honest client changed: {} answered {}, expected {}", esc_cmd(&cmd), o.show(), e.show()), "");
                return;
            }
        }
    }
}

/// the server works: new connection, write, read
fn works(srv: &Server, tag: &str) -> Result<(), String> {
    let mut c = match srv.try_client() {
        Some(c) => c,
        None => return Err("a new connection is not accepted".into()),
    };
    let k = format!("{}works", tag);
    let o = c.c(&format!("set {} 1", k));
    if !o.is_ok() {
        return Err(format!("SET on a new connection got {}", o.show()));
    }
    let o = c.c(&format!("get {}", k));
    match o.reply().and_then(Reply::text) {
        Some(t) if t == b"1" => Ok(()),
        _ => Err(format!("GET on a new connection got {}", o.show())),
    }
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("one evaluation: one hostile connection sending one or more hostile inputs and ending in one of several ways while honest clients (model-checked, keys in the same slots) run; the process, the honest replies and data, new connections, descriptors and memory are observed; distinct: bytes sent differ");
    let until = ctx.deadline(16, 900);
    let tag = "{hostile}";
    let srv = start(ctx, &Opts::default());
    // warm up, then the baseline
    let _ = works(&srv, tag);
    let fds0 = srv.fd_count();
    let stop = AtomicBool::new(false);
    let asked = AtomicU64::new(0);
    let worst = AtomicU64::new(0);
    let conns = AtomicU64::new(0);
    std::thread::scope(|s| {
        for i in 0..3 {
            let (srv, stop, asked, worst) = (&srv, &stop, &asked, &worst);
            let t = if i == 0 { "" } else { tag };
            s.spawn(move || canary(ctx, srv, i, t, stop, asked, worst));
        }
        let hs: Vec<_> = (0..6)
            .map(|i| {
                let (srv, conns) = (&srv, &conns);
                s.spawn(move || {
                    let mut r = ctx.rng(40 + i);
                    while Instant::now() < until && !ctx.violated() {
                        let fwd = r.chance(1, 8);
                        let mut st = match TcpStream::connect(if fwd { srv.fwd } else { srv.addr }) {
                            Ok(s) => s,
                            Err(e) => {
                                ctx.violation(&format!("a connection is refused: {}", e), &srv.log_tail());
                                break;
                            }
                        };
                        let _ = st.set_write_timeout(Some(Duration::from_secs(5)));
                        let mut all = vec![];
                        for _ in 0..1 + r.below(4) {
                            let (data, kind) = garbage(&mut r, "{hostile}h");
                            all.extend_from_slice(&data[..data.len().min(2000)]);
                            ctx.count(&format!("sent: {}", kind), 1);
                            let cut = if r.chance(1, 3) { 1 + r.below(data.len().max(1)) } else { data.len() };
                            let mut ok = st.write_all(&data[..cut.min(data.len())]).is_ok();
                            if cut < data.len() {
                                std::thread::sleep(Duration::from_micros(r.below(300) as u64));
                                ok = ok && st.write_all(&data[cut..]).is_ok();
                            }
                            if !ok {
                                break;
                            }
                        }
                        match r.below(5) {
                            0 => reset_on_close(&st),
                            1 => {
                                let _ = st.shutdown(std::net::Shutdown::Write);
                                let _ = st.set_read_timeout(Some(Duration::from_millis(50)));
                                let mut buf = [0; 4096];
                                while let Ok(n) = st.read(&mut buf) {
                                    if n == 0 {
                                        break;
                                    }
                                }
                            }
                            2 => {
                                let _ = st.set_read_timeout(Some(Duration::from_millis(5)));
                                let _ = st.read(&mut [0; 4096]);
                            }
                            _ => (),
                        }
                        conns.fetch_add(1, Ordering::Relaxed);
                        ctx.eval(&all);
                        if srv.dead() {
                            ctx.violation("the server died of hostile input", &format!("{}\nlast input of one of six clients: {}", srv.log_tail(), esc(&all)));
                            break;
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        stop.store(true, Ordering::SeqCst);
    });
    ctx.count("hostile_connections", conns.load(Ordering::Relaxed));
    ctx.count("honest_requests", asked.load(Ordering::Relaxed));
    ctx.count("slowest_honest_reply_ms", worst.load(Ordering::Relaxed));
    ctx.count("contained_task_panics", srv.panics().len() as u64);
    if ctx.violated() {
        return;
    }
    if let Err(e) = works(&srv, tag) {
        ctx.violation(&format!("after hostile input {}", e), &srv.log_tail());
        return;
    }
    if !wait_until(Duration::from_secs(8), || srv.fd_count() <= fds0 + 3) {
        ctx.violation(
            &format!("descriptors of ended connections are not released: {} before, {} after", fds0, srv.fd_count()),
            &srv.log_tail(),
        );
    }
    memory(ctx, tag);
    one_by_one(ctx, tag);
    if let Some(mut pd) = Pd::start(&ctx.bins, false).ok() {
        let mut r = ctx.rng(77);
        for _ in 0..ctx.n(300, 3000) {
            if let Ok(mut st) = TcpStream::connect(pd.addr) {
                let (data, _) = garbage(&mut r, "{hostile}h");
                let _ = st.set_write_timeout(Some(Duration::from_secs(5)));
                let _ = st.write_all(&data);
                if r.chance(1, 3) {
                    let _ = st.write_all(&encode(&[b(r.pick(&["pd_sever_init", "pd_sever_heartbeat", "pd_crate_group"])), r.bytes(20)]));
                }
                if r.chance(1, 2) {
                    reset_on_close(&st);
                }
            } else if !pd.alive() {
                break;
            }
        }
        if !pd.alive() {
            ctx.violation("the placement driver died of hostile input", &std::fs::read_to_string(&pd.log).unwrap_or_default());
        } else {
            let ok = Client::connect(pd.addr).map(|mut c| c.c("pd_crate_group").is_ok()).unwrap_or(false);
            if !ok {
                ctx.violation("the placement driver does not answer after hostile input", "");
            }
            ctx.count("hostile_connections_to_pd", ctx.n(300, 3000) as u64);
        }
    }
}

/// lengths announced but never sent cost nothing
fn memory(ctx: &Ctx, tag: &str) {
    let srv = start(ctx, &Opts::default());
    let _ = works(&srv, tag);
    let before = srv.rss_kb();
    let mut held = vec![];
    for i in 0..60 {
        if let Ok(mut s) = TcpStream::connect(srv.addr) {
            let n = ["999999999", "536870912", "9223372036854775807", "4294967296"][i % 4];
            let d = match i % 3 {
                0 => format!("*3\r\n$3\r\nset\r\n$1\r\nk\r\n${}\r\nabc", n),
                1 => format!("*{}\r\n$3\r\nset\r\n", n),
                _ => format!("${}\r\nabc", n),
            };
            let _ = s.write_all(d.as_bytes());
            held.push(s);
        }
    }
    std::thread::sleep(Duration::from_millis(300));
    let during = srv.rss_kb();
    if srv.dead() {
        ctx.violation("the server died of announced lengths", &srv.log_tail());
        return;
    }
    if during > before + 400_000 {
        ctx.violation(
            &format!("lengths announced but not sent make the server take memory: {} KB before, {} KB after", before, during),
            "",
        );
    }
    if let Err(e) = works(&srv, tag) {
        ctx.violation(&format!("with 60 half-sent requests pending {}", e), &srv.log_tail());
    }
    drop(held);
    // the large request of an ended connection is given back
    for _ in 0..6 {
        if let Ok(mut s) = TcpStream::connect(srv.addr) {
            let _ = s.set_write_timeout(Some(Duration::from_secs(10)));
            let _ = s.write_all(b"*3\r\n$3\r\nset\r\n$1\r\nk\r\n$90000000\r\n");
            let _ = s.write_all(&vec![b'x'; 40 << 20]);
        }
    }
    let limit = during + 200_000;
    if !wait_until(Duration::from_secs(15), || srv.rss_kb() < limit) {
        ctx.violation(
            &format!("memory of ended connections is not released: {} KB, then {} KB after 6 half-sent requests of 40 MB", during, srv.rss_kb()),
            "",
        );
    }
    ctx.count("rss_kb_after_half_sent_requests", srv.rss_kb());
    ctx.eval(b"memory");
}

/// hostile inputs one at a time, each followed by an honest request: names the culprit
fn one_by_one(ctx: &Ctx, tag: &str) {
    par(4, |t| {
        let mut srv = start(ctx, &Opts::default());
        let mut r = ctx.rng(600 + t as u64);
        let mut honest = srv.client();
        for i in 0..ctx.n(250, 6000) {
            if ctx.violated() {
                return;
            }
            let (data, kind) = garbage(&mut r, "{hostile}h");
            let v = format!("{}", i);
            let _ = honest.c(&format!("set {}one {}", tag, v));
            if let Ok(mut st) = TcpStream::connect(srv.addr) {
                let _ = st.set_write_timeout(Some(Duration::from_secs(5)));
                let _ = st.write_all(&data);
                let _ = st.set_read_timeout(Some(Duration::from_millis(3)));
                let _ = st.read(&mut [0; 4096]);
            }
            let o = honest.c(&format!("get {}one", tag));
            if o.reply().and_then(Reply::text) != Some(b(&v)) || !srv.alive() {
                ctx.violation(
                    &format!("after one hostile input ({}) an honest GET got {}", kind, o.show()),
                    &format!("input: {}\nserver: {}", esc(&data), srv.log_tail()),
                );
                return;
            }
            ctx.eval(&data[..data.len().min(4000)]);
        }
    });
}

// ---------------------------------------------------------------- C03

const WAYS: [&str; 15] = [
    "close",
    "reset",
    "half-closed",
    "garbage",
    "wrong arity",
    "half a request",
    "unread replies",
    "snapshot read to the end",
    "snapshot dropped",
    "snapshot of one slot",
    "a command which makes its task panic",
    "reset with unread replies",
    "half a request, reset",
    "a snapshot of a slot which does not exist",
    "a snapshot of no slot number",
];

fn end(mut c: Client, way: usize, r: &mut Rng) {
    match way {
        0 => (),
        1 => reset_on_close(&c.stream),
        2 => {
            let _ = c.stream.shutdown(std::net::Shutdown::Write);
            let _ = c.recv_within(Duration::from_millis(500));
        }
        3 => {
            let _ = c.send_raw(*r.pick(&[&b"!!\r\n"[..], b"$-5\r\n", b"*1\r\n$zz\r\n", b"*-9\r\n"]));
            let _ = c.recv_within(Duration::from_millis(200));
        }
        4 => {
            let _ = c.send_raw(&encode(&words(*r.pick(&["get", "set k", "incrby k x", "hset k f"]))));
            let _ = c.recv_within(Duration::from_millis(200));
        }
        5 | 12 => {
            let _ = c.send_raw(b"*3\r\n$3\r\nset\r\n$1\r\nk\r\n$10\r\nabc");
            if way == 12 {
                std::thread::sleep(Duration::from_millis(2));
                reset_on_close(&c.stream);
            }
        }
        6 | 11 => {
            let one = encode(&words("lrange biglist 0 -1"));
            let _ = c.stream.set_write_timeout(Some(Duration::from_millis(100)));
            let _ = c.send_raw(&one.repeat(200));
            std::thread::sleep(Duration::from_millis(20));
            if way == 11 {
                reset_on_close(&c.stream);
            }
        }
        7 | 9 => {
            let _ = c.send_raw(&encode(&words(if way == 7 { "syncsnapshot 16384" } else { "syncsnapshot 7" })));
            let _ = wire::read_all(&mut c.stream, Duration::from_secs(10));
        }
        8 => {
            let _ = c.send_raw(&encode(&words("syncsnapshot 16384")));
            let _ = c.stream.set_read_timeout(Some(Duration::from_millis(200)));
            let _ = c.stream.read(&mut [0; 64]);
        }
        _ => {
            let x = ["debug object", "", "", "syncsnapshot 99999", "syncsnapshot x"][way - 10];
            let _ = c.send_raw(&encode(&words(x)));
            let _ = c.recv_within(Duration::from_millis(300));
        }
    }
}

fn served(c: &mut Client, t: Duration) -> bool {
    c.send_raw(&encode(&[b("PING")])).is_ok() && c.recv_within(t) == Out::Reply(Reply::Simple(b("PONG")))
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("one evaluation: one step of a history on a server limited to N connections: with N clients served, others connect and must wait unanswered, a served one ends in one of 15 ways and a waiting one must then be served, never more than N at once; at the end N new clients are served and one more is not; distinct: N, way and number waiting differ per step");
    let until = ctx.deadline(14, 400);
    let ns = [1usize, 2, 3, 4, 6, 9];
    par(ns.len(), |t| {
        let n = ns[t];
        // one place for the readiness probe, given back before the history starts
        let srv = start(ctx, &Opts { max_connections: Some(n), ..Default::default() });
        let mut r = ctx.rng(t as u64);
        let patience = Duration::from_secs(12);
        let mut live: Vec<Client> = vec![];
        let mut log: Vec<String> = vec![];
        let mut order: Vec<usize> = (0..WAYS.len()).collect();
        let mut step = 0;
        {
            // something to read
            let mut c = srv.client();
            let big = "q".repeat(2000);
            for _ in 0..40 {
                let _ = c.c(&format!("rpush biglist {} {} {}", big, big, big));
            }
        }
        while Instant::now() < until && !ctx.violated() {
            while live.len() < n {
                let mut c = srv.client();
                if !served(&mut c, patience) {
                    ctx.violation(
                        &format!("with {} of {} places taken a client is not served", live.len(), n),
                        &format!("{}\n{}", log.join("\n"), srv.log_tail()),
                    );
                    return;
                }
                live.push(c);
            }
            // others connect: they wait
            let w = 1 + r.below(3);
            let mut waiting: Vec<Client> = (0..w).map(|_| srv.client()).collect();
            for c in &mut waiting {
                if c.send_raw(&encode(&[b("PING")])).is_err() {
                    ctx.violation("a client beyond the limit is refused instead of waiting", &log.join("\n"));
                    return;
                }
            }
            let look = Duration::from_millis(40);
            for c in &mut waiting {
                match c.recv_within(look) {
                    Out::Timeout => (),
                    o => {
                        ctx.violation(
                            &format!("with all {} places taken one more client gets {}", n, o.show()),
                            &log.join("\n"),
                        );
                        return;
                    }
                }
            }
            // those inside are served all the while
            for c in &mut live {
                if !served(c, patience) {
                    ctx.violation("a connected client is no longer served", &log.join("\n"));
                    return;
                }
            }
            let quitter = r.chance(1, 4);
            if quitter {
                // one gives up waiting
                let c = waiting.pop().unwrap();
                if r.chance(1, 2) {
                    reset_on_close(&c.stream);
                }
                drop(c);
            }
            if step % order.len() == 0 {
                for i in (1..order.len()).rev() {
                    let j = r.below(i + 1);
                    order.swap(i, j);
                }
            }
            let way = order[step % order.len()];
            step += 1;
            let i = r.below(live.len());
            let gone = live.swap_remove(i);
            end(gone, way, &mut r);
            log.push(format!("{} clients inside, {} waiting, one ends: {}", n, waiting.len(), WAYS[way]));
            if log.len() > 60 {
                log.remove(0);
            }
            if !waiting.is_empty() {
                // one of them, in whatever order they were accepted, is served now
                let t0 = Instant::now();
                let mut got = None;
                while got.is_none() && t0.elapsed() < patience {
                    for (i, c) in waiting.iter_mut().enumerate() {
                        if c.recv_within(Duration::from_millis(2)) == Out::Reply(Reply::Simple(b("PONG"))) {
                            got = Some(i);
                            break;
                        }
                    }
                }
                match got {
                    None => {
                        ctx.violation(
                            &format!("a connection ended ({}) and its place is not given to a waiting client (limit {})", WAYS[way], n),
                            &format!("{}\n{}", log.join("\n"), srv.log_tail()),
                        );
                        return;
                    }
                    Some(i) => {
                        let c = waiting.swap_remove(i);
                        live.push(c);
                    }
                }
                // but only one
                for c in &mut waiting {
                    if c.recv_within(Duration::from_millis(15)) != Out::Timeout {
                        ctx.violation(
                            &format!("more than {} clients are served at once after one ended ({})", n, WAYS[way]),
                            &log.join("\n"),
                        );
                        return;
                    }
                }
            }
            ctx.count(&format!("ended: {}", WAYS[way]), 1);
            ctx.eval(format!("{} {} {} {}", n, way, waiting.len(), quitter).as_bytes());
            // the rest gives up; the server may have accepted one of them meanwhile
            drop(waiting);
            if r.chance(1, 6) {
                // all at once
                for c in live.drain(..) {
                    let w = r.below(WAYS.len());
                    end(c, w, &mut r);
                }
            }
        }
        if srv.dead() {
            ctx.violation("the server died", &srv.log_tail());
        }
        ctx.count("steps", step as u64);
    });
    ctx.sample("limit 3: 3 clients served, 2 more connect and wait, one served client resets its connection, exactly one waiting client is answered".into());
}
