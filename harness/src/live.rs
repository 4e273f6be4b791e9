//! C25: progress under background work, clean stop on SIGINT.
use crate::conc::{menu, start, variants};
use crate::ctx::*;
use crate::net::reset_on_close;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire;
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// a request must be answered within this time; a normal one takes milliseconds
const BOUND: Duration = Duration::from_secs(15);
/// and the process must have ended this long after SIGINT
const EXIT: Duration = Duration::from_secs(15);

/// processes started for this server: itself and its children
pub fn processes(addr: SocketAddr) -> Vec<(u32, String)> {
    let want = format!("RUDIS_server_addr={}", addr).into_bytes();
    let mut v = vec![];
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let Ok(pid) = name.parse::<u32>() else { continue };
        let Ok(env) = std::fs::read(format!("/proc/{}/environ", pid)) else { continue };
        if env.split(|c| *c == 0).any(|x| x == &want[..]) {
            let st = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
            v.push((pid, st));
        }
    }
    v
}

/// children of a process, zombies included
pub fn children(pid: u32) -> Vec<(u32, char)> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let Ok(p) = name.parse::<u32>() else { continue };
        let Ok(st) = std::fs::read_to_string(format!("/proc/{}/stat", p)) else { continue };
        let Some(i) = st.rfind(')') else { continue };
        let f: Vec<&str> = st[i + 1..].split_whitespace().collect();
        if f.len() > 1 && f[1] == pid.to_string() {
            v.push((p, f[0].chars().next().unwrap_or('?')));
        }
    }
    v
}

struct Run<'a> {
    ctx: &'a Ctx,
    srv: &'a Server,
    name: String,
    /// workers end
    stop: AtomicBool,
    /// replies are no longer owed
    dying: AtomicBool,
    slowest: AtomicU64,
    answered: AtomicU64,
}

impl Run<'_> {
    fn on(&self) -> bool {
        !self.stop.load(Ordering::Relaxed)
    }
    fn judge(&self, what: &str, o: &Out, since: Instant) -> bool {
        let us = since.elapsed().as_micros() as u64;
        match o {
            Out::Reply(_) => {
                self.slowest.fetch_max(us, Ordering::Relaxed);
                self.answered.fetch_add(1, Ordering::Relaxed);
                true
            }
            Out::Timeout if !self.dying.load(Ordering::SeqCst) => {
                self.ctx.violation(
                    &format!("no answer within {:?} ({}): {}", BOUND, self.name, what),
                    &format!("log: {}", self.srv.log_tail()),
                );
                self.stop.store(true, Ordering::SeqCst);
                false
            }
            _ => false,
        }
    }
    fn client(&self) -> Option<Client> {
        let mut c = self.srv.try_client()?;
        c.timeout = BOUND;
        Some(c)
    }

    fn commands(&self, r: &mut Rng) {
        while self.on() {
            let Some(mut c) = self.client() else { return };
            for _ in 0..400 {
                if !self.on() {
                    return;
                }
                let k = format!("k{}", r.below(30)).into_bytes();
                let f = r.below(6);
                let cmd = menu(r, f, &k, b"other", "v");
                let t = Instant::now();
                let o = c.cmd(&cmd);
                if !self.judge(&esc_cmd(&cmd), &o, t) {
                    break;
                }
            }
        }
    }
    fn pipelines(&self, r: &mut Rng) {
        while self.on() {
            let Some(mut c) = self.client() else { return };
            let cmds: Vec<_> = (0..64)
                .map(|i| {
                    let k = format!("p{}", r.below(500));
                    menu(r, i % 6, k.as_bytes(), b"x", "v")
                })
                .collect();
            let t = Instant::now();
            for o in c.pipeline(&cmds) {
                if !self.judge("a pipeline", &o, t) {
                    break;
                }
            }
        }
    }
    fn expiry(&self, r: &mut Rng) {
        let Some(mut c) = self.client() else { return };
        let mut n = 0;
        while self.on() {
            let d = (now_ms() + 20 + r.below(200) as u64).to_string().into_bytes();
            let cmds: Vec<_> = (0..256)
                .map(|i| vec![b("set"), format!("e{}", (n + i) % 20_000).into_bytes(), b("v"), b("pxat"), d.clone()])
                .collect();
            n += 256;
            let t = Instant::now();
            let os = c.pipeline(&cmds);
            if !os.iter().all(|o| self.judge("SET PXAT", o, t)) {
                match self.client() {
                    Some(x) => c = x,
                    None => return,
                }
            }
        }
    }
    fn flushes(&self, r: &mut Rng) {
        let Some(mut c) = self.client() else { return };
        while self.on() {
            let t = Instant::now();
            let o = c.c(if r.chance(1, 2) { "flushall SYNC" } else { "flushall" });
            if !self.judge("FLUSHALL", &o, t) {
                return;
            }
            std::thread::sleep(Duration::from_millis(r.below(30) as u64));
        }
    }
    fn snapshots(&self, r: &mut Rng) {
        while self.on() {
            let slot = if r.chance(2, 3) { wire::ALL } else { r.below(wire::ALL) };
            let Some(mut c) = self.client() else { return };
            let _ = c.send_raw(&encode(&[b("syncsnapshot"), slot.to_string().into_bytes()]));
            if r.chance(1, 5) {
                // gives up
                let _ = c.recv_within(Duration::from_millis(5));
                reset_on_close(&c.stream);
                continue;
            }
            match wire::read_all(&mut c.stream, BOUND) {
                Ok(_) => {
                    self.ctx.count("snapshots taken", 1);
                }
                Err(e) if e.starts_with("no progress") && !self.dying.load(Ordering::SeqCst) => {
                    self.ctx.violation(&format!("a snapshot makes no progress ({}): {}", self.name, e), "");
                    return;
                }
                Err(_) => (),
            }
            std::thread::sleep(Duration::from_millis(r.below(60) as u64));
        }
    }
    /// asks for snapshots and does not read them
    fn stalled_snapshots(&self, r: &mut Rng) {
        let mut held = vec![];
        while self.on() {
            if held.len() < 6 {
                if let Some(mut c) = self.client() {
                    let _ = c.send_raw(&encode(&[b("syncsnapshot"), wire::ALL.to_string().into_bytes()]));
                    held.push(c);
                }
            } else if r.chance(1, 10) {
                held.swap_remove(r.below(held.len()));
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        // still stalled when the signal comes
        while !self.dying.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(5));
        }
        std::thread::sleep(Duration::from_millis(500));
    }
    fn subscribers(&self, r: &mut Rng) {
        let mut stalled: Vec<TcpStream> = vec![];
        while self.on() {
            match r.below(3) {
                0 => {
                    if let Ok((mut s, _)) = wire::Sub::connect(self.srv.fwd, BOUND) {
                        for _ in 0..r.below(2000) {
                            if !self.on() || s.next(Duration::from_millis(20)).is_err() {
                                break;
                            }
                        }
                    }
                }
                1 if stalled.len() < 5 => {
                    if let Ok(s) = TcpStream::connect(self.srv.fwd) {
                        use std::io::Write;
                        let _ = (&s).write_all(wire::SYNC_CMD);
                        stalled.push(s);
                    }
                }
                _ => {
                    if let Ok(s) = TcpStream::connect(self.srv.fwd) {
                        if r.chance(1, 2) {
                            reset_on_close(&s);
                        }
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        std::thread::sleep(Duration::from_millis(300));
    }
    fn hostile(&self, r: &mut Rng) {
        let mut open = vec![];
        while self.on() {
            if let Some(mut c) = self.client() {
                let x = *r.pick(&[
                    &b"*3\r\n$3\r\nset\r\n$1\r\nk\r\n$100\r\nab"[..],
                    b"*1\r\n$-7\r\n",
                    b"*2\r\n$5\r\ndebug\r\n$6\r\nobject\r\n",
                    b"*4294967295\r\n",
                    b"\x00\x00\x00",
                    b"*2\r\n$12\r\nsyncsnapshot\r\n$5\r\n99999\r\n",
                    b"*1\r\n",
                ]);
                let _ = c.send_raw(x);
                match r.below(3) {
                    0 => reset_on_close(&c.stream),
                    1 if open.len() < 40 => open.push(c),
                    _ => (),
                }
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    /// large values written and read, replies not read
    fn large(&self, r: &mut Rng) {
        let Some(mut c) = self.client() else { return };
        let mut unread = vec![];
        let mut i = 0;
        while self.on() {
            i += 1;
            let k = format!("large{}", i % 4).into_bytes();
            let t = Instant::now();
            let o = match r.below(4) {
                0 => {
                    let v = vec![b'x'; 1 << 20];
                    c.cmd(&[b("set"), k, v])
                }
                1 => {
                    let vals: Vec<_> = (0..3000).map(|j| format!("{}", j).into_bytes()).collect();
                    c.cmd(&[vec![b("rpush"), b("bigl")], vals].concat())
                }
                2 => c.c("lrange bigl 0 -1"),
                _ => c.cmd(&[b("get"), k]),
            };
            if !self.judge("a large command", &o, t) {
                return;
            }
            if r.chance(1, 20) {
                let _ = c.c("del bigl");
            }
            if unread.len() < 8 {
                if let Some(mut u) = self.client() {
                    let _ = u.stream.set_write_timeout(Some(Duration::from_millis(50)));
                    let _ = u.send_raw(&encode(&words("lrange bigl 0 -1")).repeat(300));
                    unread.push(u);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(200));
    }
    /// many connections which come and go
    fn churn(&self, r: &mut Rng) {
        while self.on() {
            let mut cs: Vec<Client> = (0..30).filter_map(|_| self.client()).collect();
            for c in &mut cs {
                let t = Instant::now();
                let o = c.c("ping");
                if self.on() && !self.judge("PING of a new connection", &o, t) {
                    break;
                }
            }
            for c in cs {
                if r.chance(1, 2) {
                    reset_on_close(&c.stream);
                }
            }
        }
    }
    /// every command changes a deadline: nothing but the reclaimer's books to be busy with
    fn deadlines(&self, r: &mut Rng) {
        std::thread::scope(|s| {
            for j in 0..8 {
                let mut r = r.fork(j);
                s.spawn(move || {
                    let mut n = 0u64;
                    while self.on() {
                        let Some(mut c) = self.client() else { return };
                        for _ in 0..40 {
                            if !self.on() {
                                return;
                            }
                            n += 1;
                            let cmds: Vec<_> = (0..500)
                                .map(|i| {
                                    let k = format!("d{}-{}", j, i).into_bytes();
                                    let ex = (1000 + n + r.below(50) as u64).to_string().into_bytes();
                                    if i % 3 == 0 {
                                        vec![b("expire"), k, ex]
                                    } else {
                                        vec![b("set"), k, b("v"), b("ex"), ex]
                                    }
                                })
                                .collect();
                            let t = Instant::now();
                            if !c.pipeline(&cmds).iter().all(|o| self.judge("a pipeline of deadlines", o, t)) {
                                break;
                            }
                        }
                    }
                });
            }
        });
    }
    fn work(&self, kind: usize, r: &mut Rng) {
        match kind {
            0 => self.commands(r),
            1 => self.pipelines(r),
            2 => self.expiry(r),
            3 => self.flushes(r),
            4 => self.snapshots(r),
            5 => self.stalled_snapshots(r),
            6 => self.subscribers(r),
            7 => self.hostile(r),
            8 => self.large(r),
            10 => self.deadlines(r),
            _ => self.churn(r),
        }
    }
}

const KINDS: [&str; 11] =
    ["commands", "pipelines", "mass expiry", "flushes", "snapshots", "stalled snapshots", "subscribers", "hostile", "large values", "churn", "deadlines"];

fn refused(a: SocketAddr) -> bool {
    TcpStream::connect_timeout(&a, Duration::from_secs(5)).is_err()
}

/// SIGINT and what must follow
fn stop(ctx: &Ctx, mut srv: Server, name: &str) {
    let (addr, fwd) = (srv.addr, srv.fwd);
    let t = Instant::now();
    let kids = children(srv.pid()).len();
    ctx.max("children at the signal", kids as u64);
    srv.signal(SIGINT);
    match srv.wait_exit(EXIT) {
        Some(st) => {
            ctx.max("slowest exit after SIGINT, ms", t.elapsed().as_millis() as u64);
            if st.code() != Some(0) {
                ctx.violation(&format!("SIGINT: the server ended with {} ({})", st, name), &srv.log_tail());
            }
        }
        None => {
            ctx.violation(
                &format!("the server does not end within {:?} after SIGINT ({})", EXIT, name),
                &format!("children at the signal: {}\nlog: {}", kids, srv.log_tail()),
            );
            return;
        }
    }
    if !refused(addr) || !refused(fwd) {
        ctx.violation(&format!("a client can still connect after the server ended ({})", name), "");
    }
    let mut left = vec![];
    if !wait_until(Duration::from_secs(5), || {
        left = processes(addr);
        left.is_empty()
    }) {
        ctx.violation(&format!("a process of the server is left behind after SIGINT ({})", name), &format!("{:?}", left));
        for (p, _) in left {
            send_signal(p, SIGKILL);
        }
    }
    ctx.count("stops", 1);
}

fn scenario(ctx: &Ctx, i: usize, r: &mut Rng) {
    let vs = variants();
    let (vname, mut o) = vs[r.below(vs.len())].clone();
    let limited = r.chance(1, 6);
    if limited {
        o.max_connections = Some(5);
    }
    let mut kinds: Vec<usize> = vec![];
    let n = r.below(7);
    for _ in 0..n {
        kinds.push(r.below(11));
    }
    // the first scenarios are one kind each, then all at once, then mixed
    if i < 11 {
        kinds = vec![i, 0];
    } else if i == 11 {
        kinds = (0..11).collect();
    } else if i == 12 {
        kinds = vec![];
    }
    kinds.sort_unstable();
    let name = format!(
        "{}{}: {}",
        vname,
        if limited { ", 5 connections" } else { "" },
        kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>().join(", ")
    );
    let srv = start(ctx, &o);
    if kinds.contains(&5) || kinds.contains(&4) {
        // something to transfer
        let mut c = srv.client();
        for j in 0..if kinds.contains(&5) { 30 } else { 1 + r.below(20) } {
            let _ = c.cmd(&[b("set"), format!("fill{}", j).into_bytes(), vec![b'x'; 1 << 19]]);
        }
    }
    let run = Run {
        ctx,
        srv: &srv,
        name: name.clone(),
        stop: AtomicBool::new(false),
        dying: AtomicBool::new(false),
        slowest: AtomicU64::new(0),
        answered: AtomicU64::new(0),
    };
    let ms = 200 + r.below(if ctx.thorough { 4000 } else { 900 }) as u64;
    let ms = if kinds.contains(&10) { ms.max(900) } else { ms };
    let during = r.chance(1, 2);
    let rs: Vec<Rng> = (0..=kinds.len()).map(|k| r.fork(k as u64 + 1)).collect();
    std::thread::scope(|s| {
        for (k, r) in kinds.iter().zip(&rs) {
            let run = &run;
            let mut r = r.clone();
            s.spawn(move || run.work(*k, &mut r));
        }
        std::thread::sleep(Duration::from_millis(ms));
        // a fresh client is served while all this goes on
        if !limited {
            let t = Instant::now();
            let mut c = srv.client();
            c.timeout = BOUND;
            let o = c.c("set canary 1");
            run.judge("SET of a fresh client", &o, t);
            let t = Instant::now();
            let o = c.c("get canary");
            run.judge("GET of a fresh client", &o, t);
        }
        if srv.dead() {
            ctx.violation(&format!("the server died ({})", name), &srv.log_tail());
        }
        if !during {
            run.stop.store(true, Ordering::SeqCst);
            std::thread::sleep(Duration::from_millis(30));
        }
        run.dying.store(true, Ordering::SeqCst);
        if ctx.violated() {
            // nothing more to learn here
            run.stop.store(true, Ordering::SeqCst);
            srv.signal(SIGKILL);
        } else {
            srv.signal(SIGINT);
        }
        let end = Instant::now() + EXIT;
        while !srv.dead() && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(5));
        }
        run.stop.store(true, Ordering::SeqCst);
    });
    ctx.max("slowest reply, ms", run.slowest.load(Ordering::Relaxed) / 1000);
    ctx.count("requests answered", run.answered.load(Ordering::Relaxed));
    ctx.count(if during { "signals during the load" } else { "signals after the load" }, 1);
    ctx.eval(name.as_bytes());
    for k in &kinds {
        ctx.count(&format!("scenarios with {}", KINDS[*k]), 1);
    }
    drop(run);
    if !ctx.violated() {
        stop(ctx, srv, &name);
    }
}

/// every finished snapshot transfer leaves nothing behind while the server runs
fn children_end(ctx: &Ctx, r: &mut Rng) {
    let srv = start(ctx, &Opts::default());
    let n = 15 + r.below(20);
    for _ in 0..n {
        if let Err(e) = wire::snapshot(srv.addr, if r.chance(1, 2) { wire::ALL } else { 3 }) {
            return ctx.violation(&format!("a snapshot of an idle server: {}", e), &srv.log_tail());
        }
    }
    let mut kids = vec![];
    if !wait_until(Duration::from_secs(10), || {
        kids = children(srv.pid());
        kids.is_empty()
    }) {
        ctx.violation(
            &format!("{} of {} finished snapshot processes are still there 10 s later", kids.len(), n),
            &format!("{:?}", kids),
        );
    }
    ctx.eval(format!("children {}", n).as_bytes());
    ctx.count("snapshot processes seen gone", n as u64);
    stop(ctx, srv, "after many snapshots");
}

/// snapshot processes that are killed (out of memory, by an operator): the server goes on, a
/// transfer that was cut is no snapshot, nothing stays behind, neither of these nor of later ones
fn children_killed(ctx: &Ctx, r: &mut Rng) {
    let srv = start(ctx, &Opts::default());
    let mut c = srv.client();
    c.timeout = BOUND;
    // far more than what the kernel buffers of an unread connection
    for j in 0..64 {
        let _ = c.cmd(&[b("set"), format!("fill{}", j).into_bytes(), vec![b'x'; 1 << 20]]);
    }
    let mut killed = 0u64;
    for round in 0..3 {
        let mut held = vec![];
        let n = if round == 0 { 6 } else { 1 + r.below(3) };
        for _ in 0..n {
            let mut s = srv.client();
            let _ = s.send_raw(&encode(&[b("syncsnapshot"), wire::ALL.to_string().into_bytes()]));
            held.push(s);
        }
        wait_until(Duration::from_secs(5), || children(srv.pid()).iter().filter(|(_, s)| *s != 'Z').count() >= held.len());
        std::thread::sleep(Duration::from_millis(r.below(200) as u64));
        // whoever does not read a snapshot holds up nobody else
        for q in ["set other 1", "get other", "pexpire other 100000", "incr other"] {
            let mut fresh = srv.client();
            fresh.timeout = BOUND;
            for c in [&mut fresh, &mut c] {
                let o = c.c(q);
                if !matches!(o, Out::Reply(_)) || srv.dead() {
                    return ctx.violation(&format!("while {} clients do not read their snapshots, {} is not answered: {}", n, q, o.show()), &srv.log_tail());
                }
            }
        }
        ctx.count("requests answered beside stalled snapshots", 8);
        let kids: Vec<_> = children(srv.pid()).into_iter().filter(|(_, s)| *s != 'Z').collect();
        for (p, _) in &kids {
            send_signal(*p, *r.pick(&[9, 9, 15, 6]));
            killed += 1;
        }
        if kids.is_empty() {
            ctx.count("rounds without a snapshot process to kill", 1);
        }
        for s in &mut held {
            match wire::read_all(&mut s.stream, BOUND) {
                Ok(d) if wire::decode_snapshot(&d).is_ok() && kids.len() >= n => ctx.violation("a snapshot whose process was killed before it could be sent is complete", &format!("{} bytes", d.len())),
                Err(e) if e.starts_with("no progress") => ctx.violation("the transfer of a killed snapshot process does not end", &e),
                _ => (),
            }
        }
        let t = Instant::now();
        let o = c.c("get fill3");
        if !matches!(&o, Out::Reply(Reply::Bulk(v)) if v.len() == 1 << 20) || t.elapsed() > BOUND || srv.dead() {
            return ctx.violation(&format!("after snapshot processes were killed the server answers {}", o.show()), &srv.log_tail());
        }
        // later ones come, and go
        for _ in 0..1 + round {
            if let Err(e) = wire::snapshot(srv.addr, wire::ALL) {
                return ctx.violation(&format!("a snapshot after another one's process was killed: {}", e), &srv.log_tail());
            }
        }
    }
    let mut kids = vec![];
    if !wait_until(Duration::from_secs(10), || {
        kids = children(srv.pid());
        kids.is_empty()
    }) {
        ctx.violation("snapshot processes are still there 10 s after some were killed and all others ended", &format!("{:?}", kids));
    }
    ctx.eval(format!("killed {}", killed).as_bytes());
    ctx.count("snapshot processes killed", killed);
    stop(ctx, srv, "after snapshot processes were killed");
}

/// servers which belong to a group stop too
fn group(ctx: &Ctx, r: &mut Rng) {
    let pd = match Pd::start(&ctx.bins, false) {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(&e),
    };
    let mut c = Client::connect(pd.addr).expect("pd");
    let _ = c.c("pd_crate_group");
    let o = Opts { pd: Some((pd.addr, 1)), ..Default::default() };
    let leader = start(ctx, &o);
    let mut lc = leader.client();
    for j in 0..200 {
        let _ = lc.cmd(&[b("set"), format!("g{}", j).into_bytes(), vec![b'y'; 20_000]]);
    }
    let follower = start(ctx, &o);
    std::thread::sleep(Duration::from_millis(r.below(2500) as u64));
    let mut pd = Some(pd);
    let way = r.below(4);
    if way == 0 {
        pd = None; // gone
        std::thread::sleep(Duration::from_millis(r.below(1500) as u64));
    }
    if way == 1 {
        send_signal(pd.as_ref().unwrap().child.id(), SIGSTOP);
        std::thread::sleep(Duration::from_millis(r.below(1500) as u64));
    }
    ctx.eval(format!("group {}", way).as_bytes());
    if r.chance(1, 2) {
        stop(ctx, follower, "follower");
        stop(ctx, leader, "leader");
    } else {
        stop(ctx, leader, "leader");
        stop(ctx, follower, "follower whose leader has stopped");
    }
    ctx.count("groups stopped", 1);
    drop(pd);
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("one evaluation: one scenario on a fresh server: up to 11 kinds of activity at once, every reply timed, then SIGINT at a random moment (during or after the load), after which the process must end by itself with status 0, refuse connections and leave no process; distinct: server variant and mix of activities differ");
    ctx.assume("a reply that takes 15 s, or an exit that takes 15 s, counts as none");
    let until = ctx.deadline(16, 600);
    let next = AtomicU64::new(0);
    par(6, |t| {
        let mut r = ctx.rng(t as u64);
        if t == 0 {
            children_end(ctx, &mut r);
        }
        if t == 3 {
            children_killed(ctx, &mut r);
        }
        if t == 1 || t == 2 {
            group(ctx, &mut r);
        }
        while Instant::now() < until && !ctx.violated() {
            let i = next.fetch_add(1, Ordering::Relaxed) as usize;
            scenario(ctx, i, &mut r);
            if i % 40 == 39 {
                group(ctx, &mut r);
            }
        }
    });
    ctx.sample("e.g. delays inside the commands: commands, mass expiry, flushes, stalled snapshots; SIGINT during the load".into());
}
