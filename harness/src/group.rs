//! Whole groups: placement driver, leader and followers, with links that break and processes that die (C20).
//!
//! A proxy before the real placement driver replaces the addresses servers register by relays, so that
//! every link from a follower to its leader can be cut, held and closed.
use crate::ctx::*;
use crate::follow::{lasting, listen, request};
use crate::model::*;
use crate::pdp::{group_req, Relay, Watcher};
use crate::repl::{diff, own_client, short_client, Own};
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire::{self, Rd, SlotSnap, Snap, Wr};
use std::collections::BTreeMap;
use std::io::Write;
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Pair {
    server: Relay,
    fwd: Relay,
}

struct Proxy {
    addr: SocketAddr,
    /// by the real address of the server
    pairs: Arc<Mutex<BTreeMap<SocketAddr, Arc<Pair>>>>,
    /// id of the server whose heartbeats are kept from the placement driver
    mute: Arc<AtomicU64>,
    quit: Arc<AtomicBool>,
}

impl Proxy {
    fn start(pd: SocketAddr) -> Proxy {
        let (l, addr) = listen();
        let p = Proxy { addr, pairs: Arc::default(), mute: Arc::default(), quit: Arc::default() };
        let (pairs, mute, quit) = (p.pairs.clone(), p.mute.clone(), p.quit.clone());
        std::thread::spawn(move || {
            for s in l.incoming() {
                if quit.load(Ordering::SeqCst) {
                    return;
                }
                let Ok(mut s) = s else { continue };
                let (pairs, mute) = (pairs.clone(), mute.clone());
                std::thread::spawn(move || {
                    let _ = s.set_nodelay(true);
                    let Ok(mut c) = Client::connect(pd) else { return };
                    let mut buf = vec![];
                    while let Some(Reply::Arr(a)) = request(&mut s, &mut buf) {
                        let mut cmd: Vec<Vec<u8>> = a.iter().filter_map(Reply::text).collect();
                        if cmd.len() == 2 && cmd[0] == b"pd_sever_init" {
                            let mut rd = Rd::new(&cmd[1]);
                            let (Ok(g), Ok(server), Ok(fwd)) = (rd.u64(), rd.addr(), rd.addr()) else { return };
                            let mut ps = pairs.lock().unwrap();
                            let p = ps.entry(server).or_insert_with(|| Arc::new(Pair { server: Relay::start(server), fwd: Relay::start(fwd) }));
                            let mut w = Wr::default();
                            w.u64(g).addr(p.server.addr).addr(p.fwd.addr);
                            cmd[1] = w.0;
                        } else if cmd.len() == 2 {
                            let Ok(id) = Rd::new(&cmd[1]).u64() else { return };
                            while id == mute.load(Ordering::SeqCst) {
                                std::thread::sleep(Duration::from_millis(2));
                            }
                        }
                        let bytes = match c.cmd(&cmd) {
                            Out::Reply(Reply::Bulk(v)) => [format!("${}\r\n", v.len()).into_bytes(), v, b("\r\n")].concat(),
                            Out::Reply(r) => format!("{}\r\n", r.show()).into_bytes(),
                            _ => return,
                        };
                        if s.write_all(&bytes).is_err() {
                            return;
                        }
                    }
                });
            }
        });
        p
    }
    fn pair(&self, s: &Server) -> Option<Arc<Pair>> {
        self.pairs.lock().unwrap().get(&s.addr).cloned()
    }
    fn relay_addr(&self, s: &Server) -> SocketAddr {
        self.pair(s).map_or(s.addr, |p| p.server.addr)
    }
}

impl Drop for Proxy {
    fn drop(&mut self) {
        self.quit.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
    }
}

/// the first slot that differs
fn differs(f: &Snap, l: &Snap, end: u64, ids: bool) -> Option<String> {
    let none = SlotSnap::default();
    (0..wire::ALL).find_map(|i| {
        let (a, z) = (f.slots.get(&i).unwrap_or(&none), l.slots.get(&i).unwrap_or(&none));
        let (x, y) = (lasting(&a.data, end), lasting(&z.data, end));
        if x != y || (ids && a.write_id != z.write_id) {
            Some(format!("slot {}: #{} and #{}\n{}", i, a.write_id, z.write_id, diff(&x, &y, "follower", "leader").join("\n")))
        } else {
            None
        }
    })
}

struct Group<'a> {
    ctx: &'a Ctx,
    pd: Pd,
    proxy: Proxy,
    srvs: Vec<Server>,
    w: Watcher,
    log: Vec<String>,
    t0: Instant,
}

impl Group<'_> {
    fn note(&mut self, s: String) {
        self.log.push(format!("{:>6} ms: {}", self.t0.elapsed().as_millis(), s));
    }
    fn bad(&self, what: &str, detail: &str) {
        let who: Vec<String> = self.srvs.iter().enumerate().map(|(i, s)| format!("server {} at {}: {}", i, s.addr, s.log_tail())).collect();
        self.ctx.violation(what, &format!("{}\n{}\n{}", detail, self.log.join("\n"), who.join("\n")));
    }
    /// joins the group as its last member, to watch; silent watchers are never promoted
    fn watch(&mut self) -> Result<(), String> {
        self.w = Watcher::join(self.pd.addr, 1)?;
        Ok(())
    }
    fn leader(&mut self) -> Option<usize> {
        let l = self.w.look().ok()??;
        (0..self.srvs.len()).find(|i| self.proxy.relay_addr(&self.srvs[*i]) == l.server)
    }
    /// all the followers hold what their leader holds
    fn converged(&mut self, l: usize, followers: &[usize], what: &str) -> bool {
        let t = Instant::now();
        let limit = Duration::from_secs(25);
        for f in followers {
            loop {
                let why = match (wire::snapshot(self.srvs[*f].addr, wire::ALL), wire::snapshot(self.srvs[l].addr, wire::ALL)) {
                    (Ok(x), Ok(y)) => match differs(&x, &y, now_ms(), true) {
                        None => {
                            self.ctx.eval(format!("{} {} {}", what, y.keys(), fnv(format!("{:?}", y.slots.values().map(|s| s.write_id).collect::<Vec<_>>()).as_bytes())).as_bytes());
                            self.ctx.count("slots compared", wire::ALL as u64);
                            self.ctx.count("keys compared", y.keys() as u64);
                            break;
                        }
                        Some(d) => d,
                    },
                    (Err(e), _) | (_, Err(e)) => e,
                };
                if t.elapsed() > limit + stalled(t) {
                    self.bad(&format!("a follower does not converge to its leader {}", what), &format!("server {} following {}: {}", f, l, why));
                    return false;
                }
                std::thread::sleep(Duration::from_millis(100));
            }
        }
        self.ctx.max(&format!("slowest convergence {}, ms", what), t.elapsed().as_millis() as u64);
        self.ctx.count(&format!("convergence {}", what), followers.len() as u64);
        true
    }
}

/// the follower holds the effect of a prefix of each client's requests
fn prefixes(ctx: &Ctx, owns: &[Own], snap: &Snap) -> Result<(), String> {
    for o in owns {
        let same = |m: &Model| {
            o.keys.iter().all(|k| match (m.map.get(k), snap.get(k)) {
                (None, None) => true,
                (Some(e), Some((v, x))) => e.val == *v && e.exp == *x,
                _ => false,
            })
        };
        let mut m = Model::new();
        let mut found = if same(&m) { Some(0) } else { None };
        for (i, x) in o.log.iter().enumerate() {
            if x.ack == u64::MAX {
                // never answered: it may or may not have happened
                let mut n = m.clone();
                n.apply(&x.cmd, 1, None);
                if same(&n) {
                    found = Some(i + 1);
                }
                break;
            }
            m.apply(&x.cmd, 1, Some(&x.out));
            if same(&m) {
                found = Some(i + 1);
            }
        }
        match found {
            None => {
                let g: wire::SlotData = o.keys.iter().filter_map(|k| Some((k.clone(), snap.get(k)?.clone()))).collect();
                let w: wire::SlotData = m.map.iter().map(|(k, e)| (k.clone(), (e.val.clone(), e.exp))).collect();
                let tail: Vec<String> = o.log.iter().rev().take(15).map(|x| format!("{} -> {}", esc_cmd(&x.cmd), x.out.show())).collect();
                return Err(format!("client {}:\n{}\nlast requests, latest first:\n{}", o.prefix, diff(&g, &w, "heir", "all requests").join("\n"), tail.join("\n")));
            }
            Some(n) => {
                ctx.max("most requests lost with a leader, of one client", (o.log.len() - n) as u64);
                ctx.count("requests of clients that survived their leader", n as u64);
            }
        }
    }
    Ok(())
}

fn wait_leader(g: &mut Group, t: Duration, want: &dyn Fn(usize) -> bool) -> Option<usize> {
    let end = Instant::now() + t;
    loop {
        if let Some(l) = g.leader() {
            if want(l) {
                return Some(l);
            }
        }
        if Instant::now() > end {
            return None;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

fn wire_all(g: &Group, who: &[usize]) -> Result<Vec<Snap>, String> {
    who.iter().map(|f| wire::snapshot(g.srvs[*f].addr, wire::ALL)).collect()
}

fn opts(r: &mut Rng, pd: SocketAddr) -> Opts {
    Opts { pd: Some((pd, 1)), delay: if r.chance(1, 3) { Some((20, 800)) } else { None }, ..Default::default() }
}

/// breaks something for a moment
fn fault(g: &mut Group, r: &mut Rng) -> Result<(), String> {
    let Some(p) = g.proxy.pair(&g.srvs[0]) else { return Err("unknown leader".into()) };
    let i = 1 + r.below(g.srvs.len() - 1);
    match r.below(12) {
        10 => {
            // a follower has to ask for a snapshot, whose process dies
            g.note("replication links break, snapshot processes are killed".into());
            p.fwd.cut();
            let end = Instant::now() + Duration::from_millis(1000 + r.below(700) as u64);
            while Instant::now() < end {
                for (k, z) in crate::live::children(g.srvs[0].pid()) {
                    if z != 'Z' {
                        send_signal(k, SIGKILL);
                        g.ctx.count("snapshot processes killed", 1);
                    }
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
        11 => {
            let d = Duration::from_millis(100 + r.below(1100) as u64);
            g.note(format!("the placement driver is stopped for {:?}", d));
            send_signal(g.pd.child.id(), SIGSTOP);
            std::thread::sleep(d);
            send_signal(g.pd.child.id(), SIGCONT);
        }
        0 => {
            g.note("all links to the leader break".into());
            p.fwd.cut();
            p.server.cut();
        }
        1 | 2 => {
            g.note("one replication link breaks".into());
            p.fwd.cut_one(r.below(64));
        }
        3 => {
            // in the middle of the transfer that follows
            g.note("replication and snapshot links break".into());
            p.fwd.cut();
            std::thread::sleep(Duration::from_millis(1000 + r.below(60) as u64));
            p.server.cut();
        }
        4 => {
            let d = Duration::from_millis(200 + r.below(1500) as u64);
            g.note(format!("the leader cannot be reached for {:?}", d));
            p.fwd.down(true);
            p.server.down(r.chance(1, 2));
            std::thread::sleep(d);
            p.fwd.down(false);
            p.server.down(false);
        }
        5 => {
            let d = Duration::from_millis(200 + r.below(1500) as u64);
            g.note(format!("the links are silent for {:?}", d));
            p.fwd.hold(true);
            p.server.hold(r.chance(1, 2));
            std::thread::sleep(d);
            p.fwd.hold(false);
            p.server.hold(false);
        }
        6 => {
            let d = Duration::from_millis(100 + r.below(2500) as u64);
            g.note(format!("server {} is stopped for {:?}", i, d));
            g.srvs[i].signal(SIGSTOP);
            std::thread::sleep(d);
            g.srvs[i].signal(SIGCONT);
        }
        7 | 8 => {
            g.note(format!("server {} is killed and started again", i));
            let o = Opts { addr: Some(g.srvs[i].addr), fwd: Some(g.srvs[i].fwd), ..opts(r, g.proxy.addr) };
            g.srvs[i].stop();
            g.srvs[i] = Server::start(&g.ctx.bins, &o)?;
        }
        _ => {
            let d = Duration::from_millis(50 + r.below(700) as u64);
            g.note(format!("the leader is stopped for {:?}", d));
            g.srvs[0].signal(SIGSTOP);
            std::thread::sleep(d);
            g.srvs[0].signal(SIGCONT);
        }
    }
    g.ctx.count("faults", 1);
    Ok(())
}

/// clients of server 0 write while `f` runs
fn under_load<F: FnOnce(&AtomicBool) -> Result<(), String>>(ctx: &Ctx, addr: SocketAddr, r: &mut Rng, t0: Instant, prefix: usize, flushing: bool, f: F) -> Result<Vec<Own>, String> {
    let stop = &AtomicBool::new(false);
    let slowest = &AtomicU64::new(0);
    let r = &*r;
    let (res, owns) = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3)
            .map(|i| s.spawn(move || own_client(addr, prefix + i, &mut r.fork(100 + i as u64), t0, stop, 100_000, slowest)))
            .collect();
        s.spawn(move || {
            short_client(addr, &mut r.fork(200), t0, stop);
        });
        s.spawn(move || sweep(addr, &mut r.fork(400), prefix, stop));
        if flushing {
            s.spawn(move || {
                let mut r = r.fork(300);
                let Ok(mut c) = Client::connect(addr) else { return };
                while !stop.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(300 + r.below(1500) as u64));
                    let _ = c.c(if r.chance(1, 2) { "flushall SYNC" } else { "flushall ASYNC" });
                }
            });
        }
        let res = f(stop);
        stop.store(true, Ordering::SeqCst);
        let owns: Vec<Own> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        (res, owns)
    });
    ctx.count("requests of clients", owns.iter().map(|o| o.log.len() as u64).sum());
    res.map(|_| owns)
}

/// a heir is found and holds what it had; what the followers held when the leader fell silent
fn takeover(g: &mut Group, kind: usize, way: usize, gone: usize, followers: &[usize], seen: &[Snap]) -> Result<Option<(Vec<Snap>, usize)>, String> {
    let ctx = g.ctx;
    let dead = Instant::now();
    g.watch()?;
    // what is on its way still arrives
    std::thread::sleep(Duration::from_millis(900));
    let mut before = vec![];
    for f in followers {
        before.push(wire::snapshot(g.srvs[*f].addr, wire::ALL)?);
    }
    for (i, f) in followers.iter().enumerate() {
        for s in 0..wire::ALL {
            let (x, y) = (seen[i].slots.get(&s).map_or(0, |s| s.write_id), before[i].slots.get(&s).map_or(0, |s| s.write_id));
            if y < x {
                g.bad("a follower went back when its leader died", &format!("server {} slot {}: #{} after #{}", f, s, y, x));
                return Ok(None);
            }
        }
        if way == 0 {
            if let Some(d) = differs(&seen[i], &before[i], now_ms(), true) {
                g.bad("a follower lost data when its leader died", &format!("server {} {}", f, d));
                return Ok(None);
            }
        }
    }
    let Some(heir) = wait_leader(g, Duration::from_secs(20), &|l| l != gone) else {
        g.bad("no surviving follower becomes leader within 20 s", "");
        return Ok(None);
    };
    g.note(format!("server {} leads", heir));
    ctx.max("slowest takeover, ms", dead.elapsed().as_millis() as u64);
    // a heartbeat later it knows
    std::thread::sleep(Duration::from_millis(1300));
    let now = wire::snapshot(g.srvs[heir].addr, wire::ALL)?;
    let Some(at) = followers.iter().position(|f| *f == heir) else {
        g.bad("a dead server leads", "");
        return Ok(None);
    };
    if let Some(d) = differs(&now, &before[at], now_ms(), true) {
        g.bad("the new leader does not hold everything it had received", &format!("server {} {}", heir, d));
        return Ok(None);
    }
    ctx.eval(format!("takeover {} {} {}", kind, way, now.keys()).as_bytes());
    let ways = ["takeovers, quiet", "takeovers under load", "takeovers under load, leader stopped first", "takeovers under load, the leader comes back", "takeovers of a leader that took over"];
    ctx.count(ways[way], 1);
    Ok(Some((before, heir)))
}

/// writes once to every slot, in random order, so that a lost write is not healed by a later one
fn sweep(addr: SocketAddr, r: &mut Rng, phase: usize, stop: &AtomicBool) {
    let mut todo: Vec<Vec<u8>> = vec![vec![]; wire::ALL];
    let mut left = wire::ALL;
    let mut i = 0;
    while left > 0 {
        i += 1;
        let k = format!("sw{}.{}", phase, i).into_bytes();
        let s = key_slot(&k);
        if todo[s].is_empty() {
            todo[s] = k;
            left -= 1;
        }
    }
    for i in (1..todo.len()).rev() {
        todo.swap(i, r.below(i + 1));
    }
    let Ok(mut c) = Client::connect(addr) else { return };
    for k in todo {
        if stop.load(Ordering::SeqCst) || !c.cmd(&[b("set"), k, b("1")]).is_ok() {
            return;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
}

fn scenario(ctx: &Ctx, r: &mut Rng, kind: usize) {
    if let Err(e) = try_scenario(ctx, r, kind) {
        ctx.inconclusive(&e);
    }
}

fn try_scenario(ctx: &Ctx, r: &mut Rng, kind: usize) -> Result<(), String> {
    let pd = Pd::start(&ctx.bins, false)?;
    let _ = Client::connect(pd.addr).map_err(|e| e.to_string())?.cmd(&group_req());
    let proxy = Proxy::start(pd.addr);
    let s0 = Server::start(&ctx.bins, &opts(r, proxy.addr))?;
    let w = Watcher::join(pd.addr, 1)?;
    let t0 = Instant::now();
    let mut g = Group { ctx, pd, proxy, srvs: vec![s0], w, log: vec![], t0 };
    let g = &mut g;
    if g.leader() != Some(0) {
        g.bad("the first server of a group does not lead", "");
        return Ok(());
    }
    let lead = g.srvs[0].addr;
    // content before anybody joins
    let mut c = g.srvs[0].client();
    for i in 0..r.below(3000) {
        let k = format!("pre{}", i).into_bytes();
        let cmd = match i % 5 {
            0 => vec![b("set"), k, b("v"), b("px"), b("100000000")],
            1 => vec![b("rpush"), k, b("a"), b("b")],
            2 => vec![b("hset"), k, b("f"), b("1")],
            3 => vec![b("zadd"), k, b("1.5"), b("m"), b("2"), b("n")],
            _ => vec![b("sadd"), k, b("x"), b("y")],
        };
        let _ = c.cmd(&cmd);
    }
    match r.below(4) {
        // transfers that take their time
        0 => {
            for i in 0..40 {
                let _ = c.cmd(&[b("set"), format!("pre.big{}", i).into_bytes(), r.bytes(1 << 18)]);
            }
        }
        1 => {
            let cmds: Vec<_> = (0..6000).map(|i| vec![b("set"), format!("pre{}{{crowd}}", i).into_bytes(), b("v")]).collect();
            let _ = c.pipeline(&cmds);
        }
        _ => (),
    }
    let n = 3 + r.below(2);
    let faults = Duration::from_millis(ctx.n(6000, 20_000) as u64);
    let mut r2 = r.fork(1);
    under_load(ctx, lead, r, t0, 0, kind % 2 == 1, |_| {
        while g.srvs.len() < n {
            let s = Server::start(&ctx.bins, &opts(&mut r2, g.proxy.addr))?;
            g.srvs.push(s);
            g.note(format!("server {} joins", g.srvs.len() - 1));
            std::thread::sleep(Duration::from_millis(r2.below(800) as u64));
        }
        let end = Instant::now() + faults;
        while Instant::now() < end {
            std::thread::sleep(Duration::from_millis(100 + r2.below(900) as u64));
            fault(g, &mut r2)?;
        }
        Ok(())
    })?;
    g.note("writes have stopped".into());
    let followers: Vec<usize> = (1..n).collect();
    g.watch()?;
    if g.leader() != Some(0) {
        if stalled(t0) > Duration::from_millis(500) {
            ctx.count("not judged: the machine stalled", 1);
        } else {
            g.bad("a leader that was never silent for long is replaced", "");
        }
        return Ok(());
    }
    if !g.converged(0, &followers, "after faults") {
        return Ok(());
    }
    // the leader dies
    let way = kind % 4;
    let mut owns = vec![];
    let mut before = vec![];
    let mut heir = 0;
    let mut late = false;
    let mut seen: Vec<Snap> = vec![];
    if way == 0 {
        for f in &followers {
            seen.push(wire::snapshot(g.srvs[*f].addr, wire::ALL)?);
        }
        g.note("the leader is killed, nothing under way".into());
        g.srvs[0].stop();
    } else {
        let mut r2 = r.fork(2);
        // short transfers to and fro: the links have just been idle, so all of this goes through streams that stand
        owns = under_load(ctx, lead, r, t0, 10, false, |stop| {
            std::thread::sleep(Duration::from_millis(700 + r2.below(1500) as u64));
            for f in &followers {
                seen.push(wire::snapshot(g.srvs[*f].addr, wire::ALL)?);
            }
            if way == 1 {
                g.note("the leader is killed under load".into());
                g.srvs[0].stop();
            } else {
                g.note("the leader is stopped under load, for good".into());
                g.srvs[0].signal(SIGSTOP);
                // clients would wait for its replies
                std::thread::sleep(Duration::from_millis(50));
                if way == 2 {
                    g.srvs[0].stop();
                } else {
                    // it comes back when another leads, with requests of its clients still unread
                    let mut more = Client::connect(lead).map_err(|e| e.to_string())?;
                    let _ = more.send_raw(&(0..500).map(|i| encode(&[b("set"), format!("zombie{}", i % 100).into_bytes(), b("boo")])).collect::<Vec<_>>().concat());
                    stop.store(true, Ordering::SeqCst);
                    match takeover(g, kind, way, 0, &followers, &seen) {
                        Ok(Some(x)) => (before, heir) = x,
                        e => {
                            g.srvs[0].signal(SIGCONT);
                            return e.map(|_| ());
                        }
                    }
                    let t = Instant::now();
                    g.note("the former leader goes on".into());
                    // it does not learn of its heir before it has answered these, or it might apply them as a follower
                    g.proxy.mute.store(1, Ordering::SeqCst);
                    g.srvs[0].signal(SIGCONT);
                    let _ = more.send_raw(&(0..500).map(|i| encode(&[b("incr"), format!("zombie.n{}", i % 100).into_bytes()])).collect::<Vec<_>>().concat());
                    let mut got = 0;
                    while got < 1000 && t.elapsed() < Duration::from_millis(1500) && matches!(more.recv_within(Duration::from_millis(1500)), Out::Reply(_)) {
                        got += 1;
                    }
                    drop(more);
                    ctx.count("requests answered by a leader that had been replaced", got);
                    std::thread::sleep(Duration::from_millis(100));
                    g.proxy.mute.store(0, Ordering::SeqCst);
                    late = got < 1000 || stalled(t) > Duration::from_millis(300);
                }
            }
            Ok(())
        })?;
        if way == 3 && (heir == 0 || ctx.violated()) {
            return Ok(());
        }
        if late {
            // it may have been written to after it had begun to follow
            ctx.count("not judged: the machine stalled", 1);
            return Ok(());
        }
        if way == 3 {
            let all: Vec<usize> = (0..n).filter(|i| *i != heir).collect();
            if !g.converged(heir, &all, "to a new leader, the former one among them") {
                return Ok(());
            }
            let now = wire::snapshot(g.srvs[heir].addr, wire::ALL)?;
            if let Some(d) = differs(&now, &before[heir - 1], now_ms(), true) {
                g.bad("the new leader takes over writes of the former one", &format!("server {} {}", heir, d));
                return Ok(());
            }
            ctx.count("former leaders that came back", 1);
        }
    }
    if way < 3 {
        (before, heir) = match takeover(g, kind, way, 0, &followers, &seen)? {
            Some(x) => x,
            None => return Ok(()),
        };
    }
    for (i, f) in followers.iter().enumerate() {
        if let Err(e) = prefixes(ctx, &owns, &before[i]) {
            g.bad("a surviving follower holds a state its leader never had", &format!("server {} {}", f, e));
            return Ok(());
        }
    }
    // the rest follow it, and the dead one comes back as a follower
    let rest: Vec<usize> = followers.iter().copied().filter(|f| *f != heir).collect();
    if !g.converged(heir, &rest, "to a new leader") {
        return Ok(());
    }
    let o = Opts { addr: Some(g.srvs[0].addr), fwd: Some(g.srvs[0].fwd), ..opts(r, g.proxy.addr) };
    let addr = g.srvs[heir].addr;
    let mut r2 = r.fork(3);
    under_load(ctx, addr, r, t0, 20, false, |_| {
        std::thread::sleep(Duration::from_millis(300));
        if way < 3 {
            g.srvs[0] = Server::start(&ctx.bins, &o)?;
            g.note("the former leader is started again".into());
        }
        std::thread::sleep(Duration::from_millis(500 + r2.below(1000) as u64));
        Ok(())
    })?;
    let all: Vec<usize> = (0..n).filter(|i| *i != heir).collect();
    if !g.converged(heir, &all, "to a new leader, with writes") {
        return Ok(());
    }
    // the new leader dies in turn
    let again = wire_all(g, &all)?;
    g.note("the new leader is killed".into());
    g.srvs[heir].stop();
    let Some((before, next)) = takeover(g, kind, 4, heir, &all, &again)? else { return Ok(()) };
    for (i, x) in all.iter().enumerate() {
        if let Some(d) = differs(&again[i], &before[i], now_ms(), true) {
            g.bad("a follower lost data when the second leader died", &format!("server {} {}", x, d));
            return Ok(());
        }
    }
    let rest: Vec<usize> = all.iter().copied().filter(|f| *f != next).collect();
    let addr = g.srvs[next].addr;
    under_load(ctx, addr, r, t0, 30, false, |_| {
        std::thread::sleep(Duration::from_millis(500));
        Ok(())
    })?;
    if !g.converged(next, &rest, "to a second new leader, with writes") {
        return Ok(());
    }
    for (i, s) in g.srvs.iter().enumerate() {
        if !s.panics().is_empty() {
            let p = s.panics().join("\n");
            g.bad(&format!("server {} panicked", i), &p);
            return Ok(());
        }
    }
    ctx.count("scenarios", 1);
    ctx.sample(g.log.join(" / "));
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("one evaluation: a follower of a real group found equal to its leader in every slot (numbers, keys, values, deadlines) after faults, after a takeover and after writes to the new leader, or a takeover judged against what the heir held before; distinct: another phase or other slot numbers");
    ctx.assume("convergence and takeover may take 25 s and 20 s; keys whose deadline passes during a run are only written as a whole");
    let until = ctx.deadline(30, 600);
    let next = AtomicU64::new(0);
    par(4, |t| {
        let mut r = ctx.rng(t as u64);
        loop {
            let k = next.fetch_add(1, Ordering::Relaxed) as usize + ctx.seed as usize;
            scenario(ctx, &mut r, k);
            if Instant::now() >= until || ctx.violated() {
                break;
            }
        }
    });
}
