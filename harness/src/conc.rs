//! Concurrency: linearizability (C13), conservation under contention (C14), FLUSHALL (C15).
use crate::ctx::*;
use crate::gen;
use crate::lin::{self, Op, Verdict};
use crate::model::*;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

type Cmd = Vec<Vec<u8>>;

/// servers which schedule differently
pub fn variants() -> Vec<(&'static str, Opts)> {
    vec![
        ("all cores", Opts::default()),
        ("delays inside the commands", Opts { delay: Some((150, 250)), ..Default::default() }),
        ("one core", Opts { cores: Some("1".into()), ..Default::default() }),
        (
            "two cores, rare long delays",
            Opts { cores: Some("2,3".into()), delay: Some((20, 2000)), ..Default::default() },
        ),
    ]
}

pub fn start(ctx: &Ctx, o: &Opts) -> Server {
    Server::start(&ctx.bins, o).unwrap_or_else(|e| panic!("{}", Inconclusive(e)))
}

/// all threads leave together; gives up when `stop` is set
struct Spin {
    n: usize,
    at: AtomicUsize,
}
impl Spin {
    fn wait(&self, round: usize, stop: &AtomicBool) -> bool {
        self.at.fetch_add(1, Ordering::SeqCst);
        let mut i = 0u32;
        while self.at.load(Ordering::SeqCst) < self.n * (round + 1) {
            i += 1;
            if i % 64 == 0 {
                if stop.load(Ordering::Relaxed) {
                    return false;
                }
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
        !stop.load(Ordering::Relaxed)
    }
}

const FAR_AT: u64 = 4_000_000_000_000;

pub fn menu(r: &mut Rng, fam: usize, k: &[u8], other: &[u8], uid: &str) -> Cmd {
    let key = || k.to_vec();
    let w = |s: &str| -> Cmd {
        s.split(' ')
            .map(|p| match p {
                "K" => k.to_vec(),
                "O" => other.to_vec(),
                "V" => b(uid),
                p => b(p),
            })
            .collect()
    };
    let m = ["a", "b", "c"];
    let a = *r.pick(&m);
    let c = *r.pick(&m);
    if r.chance(1, 14) {
        return match r.below(7) {
            0 => w("del K"),
            1 => w("exists K"),
            2 => w("del K O"),
            3 => w("exists O K"),
            4 => {
                let t = FAR_AT + r.below(3) as u64 * 1000;
                let o = *r.pick(&["", " NX", " XX", " GT", " LT"]);
                w(&format!("pexpireat K {}{}", t, o))
            }
            5 => w("dump K"),
            _ => {
                let value = if r.chance(1, 4) { b("damaged") } else { wire::payload(&Val::Str(b(uid))) };
                let mut c = vec![b("restore"), key(), b("0"), value];
                if r.chance(1, 2) {
                    c.push(b("REPLACE"));
                }
                c
            }
        };
    }
    match fam {
        0 => match r.below(15) {
            0 | 1 => w("set K V"),
            2 => w("set K V NX"),
            3 => w("set K V XX"),
            4 | 5 => w("set K V GET"),
            6 | 7 => w("get K"),
            8 => w("del K"),
            9 => w("set K V KEEPTTL"),
            10 => w("set K V PXAT 4000000001000"),
            11 => w("set K V EXAT 4000000002 GET"),
            _ => w("set K V NX"),
        },
        1 => match r.below(8) {
            0 | 1 => w("incr K"),
            2 => w("decr K"),
            3 => w("incrby K 10"),
            4 => w("decrby K 3"),
            5 => w("get K"),
            6 => w("set K 100 GET"),
            _ => w("incr K"),
        },
        2 => match r.below(19) {
            16 | 17 => {
                // many elements are pushed at once or not at all
                let mut c = w(*r.pick(&["rpush K", "lpush K"]));
                c.extend((0..6).map(|i| b(&format!("{}.{}", uid, i))));
                c
            }
            18 => w("llen K"),
            0..=2 => w("rpush K V"),
            3 => w("lpush K V"),
            4 => {
                let mut c = w("rpush K V");
                c.push(b(&format!("{}'", uid)));
                c
            }
            5 => w("lpushx K V"),
            6 => w("rpushx K V"),
            7..=9 => w("lpop K"),
            10 => w("rpop K"),
            11 => w("lpop K 2"),
            12 => w("rpop K 3"),
            13 => w("llen K"),
            14 => w("lrange K 0 -1"),
            _ => w("lrange K 0 0"),
        },
        3 => match r.below(14) {
            0..=2 => w(&format!("hset K {} V", a)),
            3 => w(&format!("hset K {} V {} V", a, c)),
            4 | 5 => w(&format!("hsetnx K {} V", a)),
            6 => w(&format!("hget K {}", a)),
            7 => w("hmget K a b c"),
            8 | 9 => w(&format!("hdel K {}", a)),
            10 => w(&format!("hdel K {} {}", a, c)),
            11 => w("hgetall K"),
            12 => w(&format!("hincrby K n {}", 1 + r.below(3))),
            _ => w(&format!("hexists K {}", a)),
        },
        4 => match r.below(9) {
            0..=2 => w(&format!("sadd K {}", a)),
            3 => w(&format!("sadd K {} {}", a, c)),
            4 | 5 => w(&format!("srem K {}", a)),
            6 => w(&format!("srem K {} {}", a, c)),
            7 => w("smembers K"),
            _ => w("smismember K a b c"),
        },
        5 => match r.below(20) {
            0..=2 => w(&format!("zadd K {} {}", r.below(9), a)),
            3 => w(&format!("zadd K NX {} {}", r.below(9), a)),
            4 => w(&format!("zadd K XX {} {}", r.below(9), a)),
            5 => w(&format!("zadd K XX CH {} {}", r.below(9), a)),
            6 => w(&format!("zadd K CH {} {} {} {}", r.below(9), a, r.below(9), c)),
            7 => w(&format!("zadd K GT CH {} {}", r.below(9), a)),
            8 => w(&format!("zadd K LT CH {} {}", r.below(9), a)),
            9 | 10 => w(&format!("zrem K {}", a)),
            11 => w(&format!("zrem K {} {}", a, c)),
            12 => w(&format!("zrank K {}", a)),
            13 => w(&format!("zrevrank K {}", a)),
            14 => w("zrange K 0 -1 WITHSCORES"),
            15 => w("zrangebyscore K (2 7 WITHSCORES"),
            16 => w("zremrangebyrank K 0 0"),
            17 => w("zremrangebyscore K 3 6"),
            18 => w(&format!("zadd K INCR 2 {}", a)),
            _ => w("zrevrange K 0 1 WITHSCORES"),
        },
        _ => match r.below(4) {
            0 => w("set K V"),
            1 => w("del K"),
            _ => {
                let f = r.below(6);
                menu(r, f, k, other, uid)
            }
        },
    }
}

struct Plan {
    keys: Vec<Vec<u8>>,
    /// client, burst, command
    todo: Vec<Vec<Vec<Cmd>>>,
    pause: bool,
}

fn plan(r: &mut Rng, tag: &str, n: usize, clients: usize, flush: bool) -> Plan {
    let fam = r.below(8);
    let nk = if r.chance(2, 3) { 1 } else { 2 };
    let same = r.chance(1, 2);
    let keys: Vec<Vec<u8>> = (0..2)
        .map(|i| if same { b(&format!("{{{}.{}}}{}", tag, n, i)) } else { b(&format!("{}.{}.{}", tag, n, i)) })
        .collect();
    let active = 2 + r.below(clients - 1);
    let per = if active <= 3 { 4 + r.below(8) } else { 3 + r.below(5) };
    let todo = (0..clients)
        .map(|c| {
            if c >= active {
                return vec![];
            }
            let mut v = vec![];
            let mut left = per;
            let mut i = 0;
            while left > 0 {
                let n = (1 + r.below(4)).min(left);
                left -= n;
                v.push(
                    (0..n)
                        .map(|_| {
                            i += 1;
                            if flush && r.chance(1, 12) {
                                return words(*r.pick(&["flushall", "flushall SYNC"]));
                            }
                            let k = r.below(nk);
                            menu(r, fam, &keys[k], &keys[1 - k], &format!("{}v{}", c, i))
                        })
                        .collect(),
                );
            }
            v
        })
        .collect();
    Plan { keys, todo, pause: r.chance(1, 3) }
}

/// the part of an operation which concerns one key
fn project(op: &Op, key: &[u8]) -> Option<Op> {
    let name = String::from_utf8_lossy(&op.cmd[0]).to_lowercase();
    if name == "flushall" {
        return Some(Op { cmd: vec![b("del"), key.to_vec()], out: None, ..op.clone() });
    }
    if (name == "del" || name == "exists") && op.cmd.len() > 2 {
        if !op.cmd[1..].iter().any(|k| k == key) {
            return None;
        }
        let n = op.cmd.len() as i64 - 1;
        let out = match op.out.as_ref().and_then(Out::int) {
            Some(0) => Some(Out::Reply(Reply::Int(0))),
            Some(m) if m == n => Some(Out::Reply(Reply::Int(1))),
            Some(m) if m > 0 && m < n => None,
            _ => op.out.clone(),
        };
        return Some(Op { cmd: vec![op.cmd[0].clone(), key.to_vec()], out, ..op.clone() });
    }
    if op.cmd.get(1).map(|k| &k[..]) == Some(key) {
        return Some(op.clone());
    }
    None
}

struct Tally {
    rounds: AtomicU64,
    ops: AtomicU64,
    overlapped: AtomicU64,
    nodes: AtomicU64,
    capped: AtomicU64,
    seq: AtomicUsize,
}

#[allow(clippy::too_many_arguments)]
fn group(ctx: &Ctx, name: &str, srv: &Server, tag: &str, rng: Rng, until: Instant, t: &Tally, flush: bool) {
    const CLIENTS: usize = 5;
    const BATCH: usize = 40;
    let t0 = Instant::now();
    let ns = || t0.elapsed().as_nanos() as u64;
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let plans: Mutex<std::sync::Arc<Vec<Plan>>> = Mutex::default();
    let results: Mutex<Vec<(usize, Op)>> = Mutex::default();
    let gate = Barrier::new(CLIENTS + 1);
    let spin = Spin { n: CLIENTS, at: AtomicUsize::new(0) };
    let connect = || srv.client();
    std::thread::scope(|s| {
        for c in 0..CLIENTS {
            let (gate, plans, results, stop, done, spin, ns) = (&gate, &plans, &results, &stop, &done, &spin, &ns);
            let mut r = rng.fork(1000 + c as u64);
            s.spawn(move || {
                let mut cl = Client::connect(srv.addr).ok();
                let mut round = 0;
                loop {
                    gate.wait();
                    if done.load(Ordering::SeqCst) {
                        return;
                    }
                    let ps = plans.lock().unwrap().clone();
                    let mut mine = vec![];
                    for (pi, p) in ps.iter().enumerate() {
                        let go = spin.wait(round, stop);
                        round += 1;
                        if !go {
                            break;
                        }
                        for burst in &p.todo[c] {
                            if p.pause && r.chance(1, 2) {
                                for _ in 0..r.below(3000) {
                                    std::hint::spin_loop();
                                }
                            }
                            let mut data = vec![];
                            for cmd in burst {
                                data.extend_from_slice(&encode(cmd));
                            }
                            let inv = ns();
                            let sent = match &mut cl {
                                Some(cl) => cl.send_raw(&data).is_ok(),
                                None => false,
                            };
                            for cmd in burst {
                                let out = match &mut cl {
                                    Some(cl) if sent => cl.recv(),
                                    _ => Out::Closed,
                                };
                                let bad = !matches!(out, Out::Reply(_));
                                mine.push((pi, Op { client: c, inv, resp: ns(), cmd: cmd.clone(), out: Some(out) }));
                                if bad {
                                    stop.store(true, Ordering::SeqCst);
                                    break;
                                }
                            }
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                        }
                    }
                    results.lock().unwrap().append(&mut mine);
                    gate.wait();
                }
            });
        }
        let mut r = rng.fork(1);
        let mut last = connect();
        while Instant::now() < until && !ctx.violated() && !stop.load(Ordering::SeqCst) {
            let ps: Vec<Plan> = (0..BATCH)
                .map(|_| plan(&mut r, tag, t.seq.fetch_add(1, Ordering::Relaxed), CLIENTS, flush))
                .collect();
            let ps = std::sync::Arc::new(ps);
            *plans.lock().unwrap() = ps.clone();
            gate.wait();
            gate.wait();
            let mut per: Vec<Vec<Op>> = (0..BATCH).map(|_| vec![]).collect();
            for (pi, op) in results.lock().unwrap().drain(..) {
                if let Some(o @ (Out::Closed | Out::Timeout | Out::Garbage(_))) = &op.out {
                    ctx.violation(
                        &format!("{} got {} under concurrent clients ({})", esc_cmd(&op.cmd), o.show(), name),
                        &srv.log_tail(),
                    );
                }
                per[pi].push(op);
            }
            if ctx.violated() {
                break;
            }
            let mut flushes: Vec<Op> = vec![];
            if flush {
                // a flush concerns the keys of the other plans too
                for ops in &per {
                    flushes.extend(ops.iter().filter(|o| o.cmd[0] == b"flushall").cloned());
                }
            }
            for (pi, p) in ps.iter().enumerate() {
                let mut ops = std::mem::take(&mut per[pi]);
                for k in &p.keys {
                    let reads = reads(k);
                    for cmd in reads {
                        let inv = ns();
                        let out = last.cmd(&cmd);
                        if !matches!(out, Out::Reply(_)) {
                            ctx.violation(
                                &format!("{} got {} after concurrent clients ({})", esc_cmd(&cmd), out.show(), name),
                                &srv.log_tail(),
                            );
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                        ops.push(Op { client: CLIENTS, inv, resp: ns(), cmd, out: Some(out) });
                    }
                }
                let overlap = ops
                    .iter()
                    .filter(|o| ops.iter().any(|q| q.client != o.client && q.inv < o.resp && o.inv < q.resp))
                    .count();
                t.rounds.fetch_add(1, Ordering::Relaxed);
                t.ops.fetch_add(ops.len() as u64, Ordering::Relaxed);
                t.overlapped.fetch_add(overlap as u64, Ordering::Relaxed);
                // identified by what ran and in which order the replies came
                let mut order: Vec<&Op> = ops.iter().collect();
                order.sort_by_key(|o| o.resp);
                let id: String = order.iter().map(|o| format!("{}{}", o.client, esc_cmd(&o.cmd[..1]))).collect();
                ctx.eval(id.as_bytes());
                if t.rounds.load(Ordering::Relaxed) % 400 == 7 {
                    ctx.sample(
                        order
                            .iter()
                            .map(|o| format!("{}: {} -> {}", o.client, esc_cmd(&o.cmd), o.out.as_ref().unwrap().show()))
                            .collect::<Vec<_>>()
                            .join("; "),
                    );
                }
                if flush {
                    let own: Vec<Op> = flushes.iter().filter(|f| !ops.iter().any(|o| o.client == f.client && o.inv == f.inv && o.resp == f.resp)).cloned().collect();
                    ops.extend(own);
                }
                for k in &p.keys {
                    let mine: Vec<Op> = ops.iter().filter_map(|o| project(o, k)).collect();
                    // flushes long before or after do not concern the key
                    let lo = mine.iter().filter(|o| o.out.is_some()).map(|o| o.inv).min().unwrap_or(0);
                    let mine: Vec<Op> =
                        mine.into_iter().filter(|o| o.out.is_some() || o.resp >= lo).collect();
                    let (v, n) = lin::check(&mine, k, None, 1_000_000_000_000, 300_000);
                    t.nodes.fetch_add(n as u64, Ordering::Relaxed);
                    match v {
                        Verdict::Ok => (),
                        Verdict::Capped => {
                            t.capped.fetch_add(1, Ordering::Relaxed);
                        }
                        Verdict::Bad(why) => ctx.violation(
                            &format!("the history of key {} has no consistent order ({})", esc(k), name),
                            &why,
                        ),
                    }
                }
            }
            if !flush {
                let _ = last.c("flushall SYNC");
            }
        }
        done.store(true, Ordering::SeqCst);
        stop.store(true, Ordering::SeqCst);
        gate.wait();
    });
}

/// commands which show the whole content of a key; all but one are refused
fn reads(k: &[u8]) -> Vec<Cmd> {
    ["get K", "lrange K 0 -1", "hgetall K", "smembers K", "zrange K 0 -1 WITHSCORES", "exists K"]
        .iter()
        .map(|s| s.split(' ').map(|p| if p == "K" { k.to_vec() } else { b(p) }).collect())
        .collect()
}

fn histories(ctx: &Ctx, until: Instant, flush: bool) {
    let t = Tally {
        rounds: AtomicU64::new(0),
        ops: AtomicU64::new(0),
        overlapped: AtomicU64::new(0),
        nodes: AtomicU64::new(0),
        capped: AtomicU64::new(0),
        seq: AtomicUsize::new(0),
    };
    let vs = variants();
    let per = Mutex::new(vec![]);
    par(vs.len(), |i| {
        let (name, o) = &vs[i];
        let srv = start(ctx, o);
        let before = t.rounds.load(Ordering::Relaxed);
        group(ctx, name, &srv, &format!("g{}", i), ctx.rng(100 + i as u64), until, &t, flush);
        per.lock().unwrap().push((name.to_string(), before));
        if srv.dead() {
            ctx.violation(&format!("the server died ({})", name), &srv.log_tail());
        }
        if let Some(p) = srv.panics().first() {
            ctx.violation(&format!("the server panicked ({}): {}", name, p), &srv.log_tail());
        }
    });
    ctx.count("histories", t.rounds.load(Ordering::Relaxed));
    ctx.count("operations", t.ops.load(Ordering::Relaxed));
    ctx.count("operations_overlapping_another_client", t.overlapped.load(Ordering::Relaxed));
    ctx.count("checker_states", t.nodes.load(Ordering::Relaxed));
    ctx.count("checker_gave_up", t.capped.load(Ordering::Relaxed));
    if t.capped.load(Ordering::Relaxed) * 20 > t.rounds.load(Ordering::Relaxed) {
        ctx.inconclusive("the linearizability checker gave up too often");
    }
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("one evaluation: one recorded history of 2 to 5 concurrent connections sending pipelined bursts to one or two keys, checked per key by a Wing-Gong search against the sequential model; distinct: commands and order of replies differ");
    histories(ctx, ctx.deadline(18, 900), false);
}

// ---------------------------------------------------------------- C14

const N: usize = 6;

/// N clients leave together, each sending its commands in bursts; the replies of each
fn storm(ctx: &Ctx, srv: &Server, rng: &mut Rng, cmds: Vec<Vec<Cmd>>) -> Option<Vec<Vec<Reply>>> {
    let n = cmds.len();
    let gate = Barrier::new(n);
    let rs = par(n, |i| {
        let mut r = rng.clone().fork(i as u64);
        let mut cl = srv.client();
        gate.wait();
        let mut out = vec![];
        let mut at = 0;
        while at < cmds[i].len() {
            let k = (1 + r.below(16)).min(cmds[i].len() - at);
            for (j, o) in cl.pipeline(&cmds[i][at..at + k]).into_iter().enumerate() {
                match o {
                    Out::Reply(x) => out.push(x),
                    o => return Err(format!("{} got {}", esc_cmd(&cmds[i][at + j]), o.show())),
                }
            }
            at += k;
        }
        Ok(out)
    });
    rng.next();
    let mut v = vec![];
    for r in rs {
        match r {
            Ok(o) => v.push(o),
            Err(e) => {
                ctx.violation(&format!("under concurrent clients {}", e), &srv.log_tail());
                return None;
            }
        }
    }
    Some(v)
}

struct Audit<'a> {
    ctx: &'a Ctx,
    srv: &'a Server,
    name: &'a str,
    r: Rng,
    c: Client,
    n: usize,
    id: usize,
}

impl Audit<'_> {
    fn key(&mut self) -> Vec<u8> {
        self.n += 1;
        b(&format!("a{}.{}", self.id, self.n))
    }
    fn bad(&self, what: &str, detail: String) {
        self.ctx.violation(&format!("{} ({})", what, self.name), &detail);
    }
    fn storm(&mut self, cmds: Vec<Vec<Cmd>>) -> Vec<Vec<Reply>> {
        let total: usize = cmds.iter().map(Vec::len).sum();
        self.ctx.count("commands", total as u64);
        storm(self.ctx, self.srv, &mut self.r, cmds).unwrap_or_default()
    }
    fn one(&mut self, cmd: &[Vec<u8>]) -> Reply {
        match self.c.cmd(cmd) {
            Out::Reply(r) => r,
            o => {
                self.bad(&format!("{} got {}", esc_cmd(cmd), o.show()), self.srv.log_tail());
                Reply::Null
            }
        }
    }

    /// single increments: the replies are exactly the partial sums
    fn counter(&mut self, per: usize) {
        let k = self.key();
        let kind = self.r.below(5);
        let cmd: Cmd = match kind {
            0 => vec![b("incr"), k.clone()],
            1 => vec![b("hincrby"), k.clone(), b("f"), b("1")],
            2 => vec![b("decr"), k.clone()],
            3 => vec![b("rpush"), k.clone(), b("x")],
            _ => vec![b("lpush"), k.clone(), b("x")],
        };
        let rs = self.storm(vec![vec![cmd.clone(); per]; N]);
        if rs.is_empty() {
            return;
        }
        let mut got: Vec<i64> = rs.iter().flatten().map(|r| r.int().unwrap_or(i64::MIN).abs()).collect();
        for (i, v) in rs.iter().enumerate() {
            let a: Vec<i64> = v.iter().map(|r| r.int().unwrap_or(0).abs()).collect();
            if a.windows(2).any(|w| w[0] >= w[1]) {
                self.bad("one client sees a counter go backwards", format!("{} client {}: {:?}", esc_cmd(&cmd), i, a));
            }
        }
        got.sort_unstable();
        let want: Vec<i64> = (1..=(N * per) as i64).collect();
        if got != want {
            let dup: Vec<_> = got.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0]).take(10).collect();
            self.bad(
                "concurrent increments are lost or doubled",
                format!("{} sent {} times, replies repeated: {:?}, greatest {:?}", esc_cmd(&cmd), N * per, dup, got.last()),
            );
        }
    }

    /// different increments: the sum is right in the end
    fn sums(&mut self, per: usize) {
        let k = self.key();
        let kind = self.r.below(3);
        let mut sum = 0i64;
        let mut cmds = vec![];
        for _ in 0..N {
            let mut v = vec![];
            for _ in 0..per {
                let d = self.r.range(-1000, 1000);
                sum += d;
                v.push(match kind {
                    0 if d < 0 => vec![b("decrby"), k.clone(), b(&(-d).to_string())],
                    0 => vec![b("incrby"), k.clone(), b(&d.to_string())],
                    1 => vec![b("hincrby"), k.clone(), b("f"), b(&d.to_string())],
                    _ => vec![b("zadd"), k.clone(), b("INCR"), b(&d.to_string()), b("m")],
                });
            }
            cmds.push(v);
        }
        if self.storm(cmds).is_empty() {
            return;
        }
        let read: Cmd = match kind {
            0 => vec![b("get"), k.clone()],
            1 => vec![b("hget"), k.clone(), b("f")],
            _ => vec![b("zrange"), k.clone(), b("0"), b("-1"), b("WITHSCORES")],
        };
        let got = self.one(&read);
        let t = match &got {
            Reply::Arr(v) => v.last().and_then(Reply::text),
            r => r.text(),
        };
        let t = t.and_then(|t| String::from_utf8(t).ok()).and_then(|t| t.parse::<f64>().ok());
        if t != Some(sum as f64) {
            self.bad("concurrent increments do not add up", format!("{} gives {}, the increments add up to {}", esc_cmd(&read), got.show(), sum));
        }
    }

    /// every element pushed is popped exactly once, in order per producer and consumer
    fn queue(&mut self, per: usize) {
        let k = self.key();
        let kind = self.r.below(3);
        let (push, pop) = [("rpush", "lpop"), ("lpush", "rpop"), ("", "")][kind];
        let counts = self.r.chance(1, 2);
        let mut cmds = vec![];
        let mut all = BTreeSet::new();
        for i in 0..N {
            let mut v: Vec<Cmd> = vec![];
            if i < N / 2 {
                let mut n = 0;
                while n < per {
                    let m = if counts { 1 + self.r.below(4) } else { 1 };
                    let p = if kind == 2 { *self.r.pick(&["rpush", "lpush"]) } else { push };
                    let mut c = vec![b(p), k.clone()];
                    for _ in 0..m {
                        let e = b(&format!("{}:{}", i, n));
                        all.insert(e.clone());
                        c.push(e);
                        n += 1;
                    }
                    v.push(c);
                }
            } else {
                for _ in 0..per {
                    let p = if kind == 2 { *self.r.pick(&["rpop", "lpop"]) } else { pop };
                    let mut c = vec![b(p), k.clone()];
                    if counts && self.r.chance(1, 2) {
                        c.push(b(&(1 + self.r.below(5)).to_string()));
                    }
                    v.push(c);
                }
            }
            cmds.push(v);
        }
        let log = cmds.clone();
        let mut rs = self.storm(cmds);
        if rs.is_empty() {
            return;
        }
        let rest = self.one(&[b("lrange"), k.clone(), b("0"), b("-1")]);
        let rest = match rest {
            Reply::Arr(v) if kind == 1 => Reply::Arr(v.into_iter().rev().collect()),
            r => r,
        };
        rs.push(vec![rest]);
        let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
        for (i, v) in rs.iter().enumerate() {
            if i < N / 2 {
                if let Some(r) = v.iter().find(|r| r.int().is_none()) {
                    self.bad("a push is refused", r.show());
                }
                continue;
            }
            let mut last: HashMap<usize, i64> = HashMap::new();
            for (j, r) in v.iter().enumerate() {
                let items = match r {
                    Reply::Arr(a) => a.iter().filter_map(Reply::text).collect::<Vec<_>>(),
                    Reply::Null => vec![],
                    r => r.text().into_iter().collect(),
                };
                if let Some(c) = log.get(i).and_then(|l| l.get(j)) {
                    let max = c.get(2).and_then(|n| int(n)).unwrap_or(1);
                    if items.len() as i64 > max {
                        self.bad("a pop removes more than asked", format!("{} gives {}", esc_cmd(c), r.show()));
                    }
                }
                for e in items {
                    *seen.entry(e.clone()).or_insert(0) += 1;
                    if !all.contains(&e) {
                        self.bad("an element nobody pushed is popped", esc(&e));
                    }
                    let t = String::from_utf8_lossy(&e).to_string();
                    let mut p = t.split(':').map(|x| x.parse::<i64>().unwrap_or(-1));
                    let (who, no) = (p.next().unwrap_or(-1) as usize, p.next().unwrap_or(-1));
                    if kind != 2 {
                        if let Some(l) = last.insert(who, no) {
                            if l >= no {
                                self.bad(
                                    "elements of one producer are popped out of order",
                                    format!("{} then {} of producer {} by consumer {}", l, no, who, i),
                                );
                            }
                        }
                    }
                }
            }
        }
        for e in &all {
            match seen.get(e) {
                Some(1) => (),
                n => {
                    self.bad(
                        "a pushed element is lost or popped twice",
                        format!("{} of list {} seen {} times", esc(e), esc(&k), n.copied().unwrap_or(0)),
                    );
                    return;
                }
            }
        }
    }

    /// exactly one winner of conditional writes
    fn winners(&mut self, rounds: usize) {
        let keys: Vec<Vec<u8>> = (0..rounds).map(|_| self.key()).collect();
        let kind = self.r.below(6);
        if kind == 3 {
            for k in &keys {
                self.one(&[b("set"), k.clone(), b("v")]);
            }
        }
        let cmds: Vec<Vec<Cmd>> = (0..N)
            .map(|i| {
                let id = b(&format!("w{}", i));
                keys.iter()
                    .map(|k| match kind {
                        0 => vec![b("set"), k.clone(), id.clone(), b("NX")],
                        1 => vec![b("hsetnx"), k.clone(), b("f"), id.clone()],
                        2 => vec![b("restore"), k.clone(), b("0"), wire::payload(&Val::Str(id.clone()))],
                        3 => vec![b("pexpireat"), k.clone(), b(&(FAR_AT + i as u64).to_string()), b("NX")],
                        4 => vec![b("zadd"), k.clone(), b("NX"), b(&i.to_string()), b("m")],
                        _ => vec![b("hset"), k.clone(), b("f"), id.clone()],
                    })
                    .collect()
            })
            .collect();
        let show = esc_cmd(&cmds[0][0]);
        let rs = self.storm(cmds);
        if rs.is_empty() {
            return;
        }
        for (j, k) in keys.iter().enumerate() {
            let won: Vec<usize> = (0..N).filter(|i| rs[*i][j].is_ok() || rs[*i][j].int() == Some(1)).collect();
            if won.len() != 1 {
                self.bad("a conditional write has not exactly one winner", format!("like {} on {}: winners {:?}", show, esc(k), won));
                return;
            }
            let r = match kind {
                0 | 2 => self.one(&[b("get"), k.clone()]),
                1 => self.one(&[b("hget"), k.clone(), b("f")]),
                4 => match self.one(&[b("zrange"), k.clone(), b("0"), b("-1"), b("WITHSCORES")]) {
                    Reply::Arr(v) if v.len() == 2 => match v[1].text() {
                        Some(t) => Reply::Bulk([b("w"), t].concat()),
                        None => Reply::Null,
                    },
                    _ => Reply::Null,
                },
                _ => continue,
            };
            if r.text() != Some(b(&format!("w{}", won[0]))) {
                self.bad("the value is not the one of the winner", format!("like {} on {}: {} won, the value is {}", show, esc(k), won[0], r.show()));
                return;
            }
        }
    }

    /// insertions and removals balance per member
    fn balance(&mut self, per: usize) {
        let k = self.key();
        let kind = self.r.below(5);
        let ms = ["a", "b", "c"];
        let mut cmds = vec![];
        for _ in 0..N {
            let mut v: Vec<Cmd> = vec![];
            for _ in 0..per {
                let m = b(*self.r.pick(&ms));
                let add = self.r.chance(1, 2);
                v.push(match (kind, add) {
                    (0, true) => vec![b("sadd"), k.clone(), m],
                    (0, false) => vec![b("srem"), k.clone(), m],
                    (1, true) => vec![b("zadd"), k.clone(), b(&self.r.below(5).to_string()), m],
                    (1, false) => vec![b("zrem"), k.clone(), m],
                    (2, true) => vec![b("hset"), k.clone(), m, b("v")],
                    (2, false) => vec![b("hdel"), k.clone(), m],
                    (3, true) => vec![b("hsetnx"), k.clone(), m, b("v")],
                    (3, false) => vec![b("hdel"), k.clone(), m],
                    (_, true) => vec![b("set"), [k.clone(), m].concat(), b("v"), b("NX")],
                    (_, false) => vec![b("del"), [k.clone(), m].concat()],
                });
            }
            cmds.push(v);
        }
        let log = cmds.clone();
        let rs = self.storm(cmds);
        if rs.is_empty() {
            return;
        }
        for m in ms {
            let mut bal = 0i64;
            for (v, r) in log.iter().flatten().zip(rs.iter().flatten()) {
                let hit = v.last().unwrap() == &b(m) || v[1] == [k.clone(), b(m)].concat() || (v.len() == 4 && v[2] == b(m));
                if !hit {
                    continue;
                }
                let did = i64::from(r.is_ok() || r.int() == Some(1));
                bal += match &v[0][..] {
                    b"srem" | b"zrem" | b"hdel" | b"del" => -did,
                    _ => did,
                };
            }
            let q = match kind {
                0 => self.one(&[b("sismember"), k.clone(), b(m)]).int(),
                1 => match self.one(&[b("zrank"), k.clone(), b(m)]) {
                    Reply::Null => Some(0),
                    _ => Some(1),
                },
                2 | 3 => self.one(&[b("hexists"), k.clone(), b(m)]).int(),
                _ => self.one(&[b("exists"), [k.clone(), b(m)].concat()]).int(),
            };
            if q != Some(bal) {
                self.bad(
                    "insertions and removals reported do not balance",
                    format!("{}: {} of {}: reported balance {}, present {:?}", ["set", "sorted set", "hash", "hash", "string"][kind], m, esc(&k), bal, q),
                );
            }
        }
    }

    /// SET GET: each value is handed out exactly once
    fn exchange(&mut self, per: usize) {
        let k = self.key();
        let cmds: Vec<Vec<Cmd>> = (0..N)
            .map(|i| (0..per).map(|j| vec![b("set"), k.clone(), b(&format!("x{}:{}", i, j)), b("GET")]).collect())
            .collect();
        let rs = self.storm(cmds);
        if rs.is_empty() {
            return;
        }
        let mut got: Vec<Vec<u8>> = rs.iter().flatten().map(|r| r.text().unwrap_or_default()).collect();
        got.push(self.one(&[b("get"), k.clone()]).text().unwrap_or_default());
        got.sort();
        let mut want: Vec<Vec<u8>> =
            (0..N).flat_map(|i| (0..per).map(move |j| b(&format!("x{}:{}", i, j)))).collect();
        want.push(vec![]);
        want.sort();
        if got != want {
            let dup: Vec<String> = got.windows(2).filter(|w| w[0] == w[1]).map(|w| esc(&w[0])).take(8).collect();
            self.bad("values exchanged by SET GET are lost or handed out twice", format!("key {}: repeated {:?}", esc(&k), dup));
        }
    }

    /// readers never see half of a write
    fn torn(&mut self, per: usize) {
        let k = self.key();
        let kind = self.r.below(5);
        let big = self.r.chance(1, 3);
        let mut cmds = vec![];
        for i in 0..N {
            let mut v: Vec<Cmd> = vec![];
            for j in 0..per {
                let id = format!("{}:{}", i, j);
                if i < N / 2 {
                    v.push(match kind {
                        0 => {
                            let mut c = vec![b("hset"), k.clone()];
                            for f in ["f", "g", "h", "i", "j", "k"] {
                                c.extend([b(f), b(&id)]);
                            }
                            c
                        }
                        1 => {
                            let n = if big { 9000 } else { 40 };
                            let unit = format!("{};", id);
                            vec![b("set"), k.clone(), b(&unit.repeat(n))]
                        }
                        2 => [vec![b(["rpush", "lpush"][(i + j) % 2]), k.clone()], vec![b(&id); 6]].concat(),
                        3 => {
                            let l = (0..5).map(|_| b(&id)).collect();
                            vec![b("restore"), k.clone(), b("0"), wire::payload(&Val::List(l)), b("REPLACE")]
                        }
                        _ => vec![b("zadd"), k.clone(), b(&j.to_string()), b("a"), b(&j.to_string()), b("b"), b(&j.to_string()), b("c")],
                    });
                } else {
                    v.push(match kind {
                        0 if j % 2 == 0 => vec![b("hmget"), k.clone(), b("f"), b("g"), b("h"), b("i"), b("j"), b("k")],
                        0 => vec![b("hgetall"), k.clone()],
                        1 => vec![b("get"), k.clone()],
                        2 if j % 3 == 0 => vec![b("llen"), k.clone()],
                        2 if j % 3 == 1 => vec![b(["lpop", "rpop"][j % 2]), k.clone(), b("6")],
                        2 => vec![b("lrange"), k.clone(), b("0"), b("-1")],
                        3 => vec![b("lrange"), k.clone(), b("0"), b("-1")],
                        _ => vec![b("zrange"), k.clone(), b("0"), b("-1"), b("WITHSCORES")],
                    });
                }
            }
            cmds.push(v);
        }
        let log = cmds.clone();
        let rs = self.storm(cmds);
        for i in N / 2..rs.len() {
            for (c, r) in log[i].iter().zip(&rs[i]) {
                let ok = match (kind, r) {
                    (0, Reply::Arr(a)) if c[0] == b"hmget" => a.iter().all(|x| x == &a[0]),
                    (0, Reply::Arr(a)) => a.len() % 12 == 0 && a.chunks(2).all(|p| p[1] == a[1]),
                    (1, Reply::Null) => true,
                    (1, r) => match r.text() {
                        Some(t) => {
                            let u = t.split(|x| *x == b';').next().map(|u| [u, b";"].concat()).unwrap_or_default();
                            t.len() == u.len() * if big { 9000 } else { 40 } && t.chunks(u.len()).all(|x| x == &u[..])
                        }
                        None => false,
                    },
                    (2, Reply::Int(n)) => n % 6 == 0,
                    (2 | 3, Reply::Arr(a)) => {
                        let u = if kind == 2 { 6 } else { 5 };
                        a.len() % u == 0 && a.chunks(u).all(|p| p.iter().all(|x| x == &p[0]))
                    }
                    (4, Reply::Arr(a)) => a.len() % 6 == 0 && a.chunks(2).all(|p| p[1] == a[1]),
                    (_, Reply::Null) => true,
                    _ => false,
                };
                if !ok {
                    self.bad("a reader sees part of a write", format!("{} gives {}", esc_cmd(c), r.show()));
                    return;
                }
            }
        }
    }
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("one evaluation: one storm of 6 connections contending for shared keys, audited over all replies and the final content (partial sums unique and complete, every list element popped exactly once in order, one winner, reported changes balance, values handed out once, no partial write visible); distinct: storm kind, size and server variant differ");
    let vs = variants();
    let until = ctx.deadline(18, 700);
    let seq = AtomicUsize::new(0);
    par(vs.len(), |i| {
        let (name, o) = &vs[i];
        let srv = start(ctx, o);
        let c = srv.client();
        let mut a = Audit { ctx, srv: &srv, name, r: ctx.rng(i as u64), c, n: 0, id: i };
        let slow = o.delay.is_some();
        while Instant::now() < until && !ctx.violated() {
            let kind = a.r.below(7);
            let mut per = 20 + a.r.below(if slow { 100 } else { 400 });
            match kind {
                0 => a.counter(per),
                1 => a.sums(per),
                2 => a.queue(per),
                3 => a.winners(per),
                4 => a.balance(per),
                5 => a.exchange(per),
                _ => {
                    per = per.min(80);
                    a.torn(per);
                }
            }
            ctx.eval(format!("{} {} {}", kind, per, seq.fetch_add(1, Ordering::Relaxed)).as_bytes());
            ctx.count(["counter", "sums", "queue", "winners", "balance", "exchange", "torn"][kind], 1);
            if a.n > 3000 {
                let _ = a.c.c("flushall SYNC");
                a.n = 0;
            }
        }
        if srv.dead() {
            ctx.violation(&format!("the server died ({})", name), &srv.log_tail());
        }
        if let Some(p) = srv.panics().first() {
            ctx.violation(&format!("the server panicked ({}): {}", name, p), &srv.log_tail());
        }
    });
    ctx.sample("e.g. 6 connections x 20..420 INCR on one key: replies must be exactly 1..n, each client's increasing".into());
}

// ---------------------------------------------------------------- C15

fn type_cmd(r: &mut Rng, i: usize, k: &[u8], v: &str) -> Cmd {
    let k = k.to_vec();
    match i % 5 {
        0 => vec![b("set"), k, b(v)],
        1 => vec![b("rpush"), k, b(v), b("y"), b("z")],
        2 => vec![b("hset"), k, b("f"), b(v), b("g"), b(&r.below(100).to_string())],
        3 => vec![b("sadd"), k, b(v), b("y")],
        _ => vec![b("zadd"), k, b("1.5"), b(v), b("2"), b("y")],
    }
}

/// content, flush, new content under the same names; old deadlines mean nothing, new ones everything
fn refill(ctx: &Ctx, name: &str, srv: &Server, r: &mut Rng, round: usize) {
    let mut c = srv.client();
    let mut d = srv.client();
    let n = *r.pick(&[40, 300, 3000]);
    // now and then all in one slot
    let tag = if r.chance(1, 3) { format!("{{slot{}}}", round % 2) } else { String::new() };
    let keys: Vec<Vec<u8>> = (0..n).map(|i| b(&format!("{}f{}.{}", tag, round % 3, i))).collect();
    let send = |c: &mut Client, cmds: &[Cmd]| -> Option<Vec<Reply>> {
        let out = c.pipeline(cmds);
        if let Some((i, o)) = out.iter().enumerate().find(|(_, o)| !matches!(o, Out::Reply(x) if !x.is_err())) {
            ctx.violation(&format!("{} answered {} ({})", esc_cmd(&cmds[i]), o.show(), name), &srv.log_tail());
            return None;
        }
        Some(out.into_iter().map(|o| o.reply().cloned().unwrap()).collect())
    };
    let t0 = now_ms();
    let old_dead = t0 + 400 + r.below(400) as u64 + n as u64 / 2;
    let mut cmds = vec![];
    for (i, k) in keys.iter().enumerate() {
        cmds.push(type_cmd(r, i, k, "old"));
        if i == n / 2 {
            // a large value among them
            cmds.push(vec![b("del"), k.clone()]);
            cmds.push([vec![b("sadd"), k.clone()], (0..2000 + r.below(3000)).map(|j| b(&format!("m{}", j))).collect()].concat());
        }
        match r.below(3) {
            0 => cmds.push(vec![b("pexpireat"), k.clone(), b(&old_dead.to_string())]),
            1 => cmds.push(vec![b("pexpireat"), k.clone(), b("4000000000000")]),
            _ => (),
        }
    }
    if send(&mut c, &cmds).is_none() {
        return;
    }
    let flush = words(*r.pick(&["flushall", "flushall SYNC", "flushall sync"]));
    // what follows in the same burst is executed after the flush, possibly while it still cleans up
    let direct = r.chance(1, 2);
    let mut model = Model::new();
    let mut cmds: Vec<Cmd> = vec![];
    let new_dead = old_dead.max(now_ms()) + 500 + r.below(3) as u64 * 100;
    let mut soon = vec![];
    for (i, k) in keys.iter().enumerate() {
        if r.chance(1, 5) {
            continue;
        }
        let mut cs = vec![type_cmd(r, i + round, k, "new")];
        match r.below(4) {
            0 => {
                cs.push(vec![b("pexpireat"), k.clone(), b(&new_dead.to_string())]);
                soon.push(k.clone());
            }
            1 => cs.push(vec![b("pexpireat"), k.clone(), b("4000000001000")]),
            // the very deadline of before, then another
            2 => {
                cs.push(vec![b("pexpireat"), k.clone(), b(&old_dead.to_string())]);
                cs.push(vec![b("pexpireat"), k.clone(), b("4000000002000")]);
            }
            _ => (),
        }
        for x in cs {
            model.apply(&x, t0, None);
            cmds.push(x);
        }
    }
    if direct {
        cmds.insert(0, flush.clone());
    } else {
        let ok = send(&mut c, &[flush.clone()]);
        if ok.is_none() {
            return;
        }
        match wire::snapshot(srv.addr, wire::ALL) {
            Ok(s) => {
                ctx.count("snapshots_after_flush", 1);
                if let Some((k, (v, e))) = s.all().iter().next() {
                    ctx.violation(
                        &format!("after {} there still is {} ({})", esc_cmd(&flush), esc(k), name),
                        &format!("{} keys, e.g. {} = {} deadline {}", s.keys(), esc(k), v.show(), e),
                    );
                    return;
                }
            }
            Err(e) => {
                ctx.count("snapshots_failed", 1);
                eprintln!("snapshot: {}", e);
            }
        }
        let ex: Vec<Cmd> = keys.iter().map(|k| vec![b("exists"), k.clone()]).collect();
        if let Some(rs) = send(&mut d, &ex) {
            if let Some(i) = rs.iter().position(|r| r.int() != Some(0)) {
                ctx.violation(&format!("after {} {} still exists ({})", esc_cmd(&flush), esc(&keys[i]), name), "");
                return;
            }
        }
    }
    if send(&mut c, &cmds).is_none() {
        return;
    }
    // a key may have expired between the two deadlines it was given
    if now_ms() > new_dead - 100 || now_ms() > old_dead - 30 {
        ctx.count("rounds_too_slow", 1);
        return;
    }
    // the deadlines of before the flush pass
    while now_ms() < old_dead + 60 {
        std::thread::sleep(Duration::from_millis(10));
    }
    let before = now_ms() < new_dead;
    let snap = wire::snapshot(srv.addr, wire::ALL);
    if before && now_ms() < new_dead {
        if let Ok(s) = &snap {
            let all = s.all();
            for (k, e) in &model.map {
                match all.get(k) {
                    Some((v, x)) if *v == e.val && *x == e.exp => (),
                    got => {
                        ctx.violation(
                            &format!("a key written after {} is not kept ({})", esc_cmd(&flush), name),
                            &format!(
                                "{}: written {} deadline {}, now {}; deadline before the flush {}, flush and writes in one burst: {}",
                                esc(k),
                                e.val.show(),
                                e.exp,
                                got.map_or("absent".into(), |(v, x)| format!("{} deadline {}", v.show(), x)),
                                old_dead,
                                direct
                            ),
                        );
                        return;
                    }
                }
            }
            if let Some((k, v)) = all.iter().find(|(k, _)| !model.map.contains_key(*k)) {
                ctx.violation(&format!("after {} there still is {} ({})", esc_cmd(&flush), esc(k), name), &v.0.show());
                return;
            }
            ctx.count("keys_compared_after_refill", all.len() as u64);
        }
    }
    // the new deadlines pass: hidden at once, reclaimed soon
    while now_ms() < new_dead + 20 {
        std::thread::sleep(Duration::from_millis(10));
    }
    let ex: Vec<Cmd> = soon.iter().map(|k| vec![b("exists"), k.clone()]).collect();
    if let Some(rs) = send(&mut d, &ex) {
        if let Some(i) = rs.iter().position(|r| r.int() != Some(0)) {
            ctx.violation(&format!("the deadline of a key written after {} has no effect ({})", esc_cmd(&flush), name), &esc(&soon[i]));
            return;
        }
    }
    let mut left = None;
    let gone = wait_until(Duration::from_secs(4), || match wire::snapshot(srv.addr, wire::ALL) {
        Ok(s) => {
            let all = s.all();
            left = soon.iter().find(|k| all.contains_key(*k)).cloned();
            left.is_none()
        }
        Err(_) => true,
    });
    if !gone {
        ctx.violation(
            &format!("a key written with a deadline after {} is never reclaimed ({})", esc_cmd(&flush), name),
            &left.map(|k| esc(&k)).unwrap_or_default(),
        );
        return;
    }
    ctx.count("refill_rounds", 1);
    ctx.count("keys_with_new_deadline", soon.len() as u64);
    ctx.eval(format!("refill {} {} {} {:?}", name, round, n, flush).as_bytes());
    let _ = c.c("flushall SYNC");
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("one evaluation: either one recorded history of concurrent connections some of which issue FLUSHALL, checked per key with the flush as a removal of every key; or one round of content, flush, new content under the same names with new deadlines, compared with decoded snapshots before and after the old and new deadlines; distinct: commands and order of replies, or round, differ");
    let until = ctx.deadline(18, 600);
    let vs = variants();
    std::thread::scope(|s| {
        let h = s.spawn(|| histories(ctx, until, true));
        par(vs.len(), |i| {
            let (name, o) = &vs[i];
            let srv = start(ctx, o);
            let mut r = ctx.rng(900 + i as u64);
            let mut round = 0;
            while Instant::now() < until && !ctx.violated() {
                refill(ctx, name, &srv, &mut r, round);
                round += 1;
            }
        });
        if let Err(e) = h.join() {
            std::panic::resume_unwind(e);
        }
    });
    if ctx.counter("refill_rounds") == 0 {
        ctx.inconclusive("no refill round finished");
    }
}
