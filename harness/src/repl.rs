//! Snapshots under load (C17) and the replication stream (C18).
use crate::conc::{menu, start, variants};
use crate::ctx::*;
use crate::model::*;
use crate::net::reset_on_close;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire::{self, Msg, Snap, SlotData, Sub, WCmd};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Cmd = Vec<Vec<u8>>;

pub struct OpRec {
    pub cmd: Cmd,
    pub start: u64,
    /// u64::MAX: never answered
    pub ack: u64,
    pub out: Out,
}

/// clients that only touch keys of their own, one request at a time
pub struct Own {
    pub prefix: String,
    pub keys: Vec<Vec<u8>>,
    pub log: Vec<OpRec>,
}

fn own_keys(w: usize) -> (String, Vec<Vec<u8>>) {
    let p = format!("w{}:", w);
    // some share a slot with the keys of other clients
    let keys = (0..6)
        .map(|i| if i < 3 { format!("{}k{}", p, i) } else { format!("{}k{}{{t{}}}", p, i, i % 2) }.into_bytes())
        .collect();
    (p, keys)
}

pub fn us(t0: Instant) -> u64 {
    t0.elapsed().as_micros() as u64
}

pub fn own_client(addr: SocketAddr, w: usize, r: &mut Rng, t0: Instant, stop: &AtomicBool, limit: usize, slowest: &AtomicU64) -> Own {
    let (prefix, keys) = own_keys(w);
    let mut o = Own { prefix, keys, log: vec![] };
    let Ok(mut c) = Client::connect(addr) else { return o };
    let mut i = 0u64;
    while !stop.load(Ordering::Relaxed) && o.log.len() < limit {
        i += 1;
        let k = r.below(o.keys.len());
        let fam = if r.chance(1, 8) { r.below(6) } else { k % 6 };
        let key = o.keys[k].clone();
        let cmd = menu(r, fam, &key, &key, &format!("u{}.{}", w, i));
        let s = us(t0);
        let out = c.cmd(&cmd);
        let e = us(t0);
        slowest.fetch_max(e - s, Ordering::Relaxed);
        let ok = matches!(out, Out::Reply(_));
        let ack = if ok { e } else { u64::MAX };
        o.log.push(OpRec { cmd, start: s, ack, out });
        if !ok {
            break;
        }
    }
    o
}

/// one client whose keys expire soon: every write sets the whole key and its deadline
pub struct Short {
    key: Vec<u8>,
    val: Vec<u8>,
    at: u64,
    start: u64,
    ack: u64,
}

pub fn short_client(addr: SocketAddr, r: &mut Rng, t0: Instant, stop: &AtomicBool) -> Vec<Short> {
    let mut v = vec![];
    let Ok(mut c) = Client::connect(addr) else { return v };
    let mut i = 0;
    while !stop.load(Ordering::Relaxed) && v.len() < 30_000 {
        i += 1;
        let key = format!("short{}", r.below(60)).into_bytes();
        let val = format!("s{}", i).into_bytes();
        let at = now_ms() + 20 + r.below(1500) as u64;
        let start = us(t0);
        let o = c.cmd(&[b("set"), key.clone(), val.clone(), b("pxat"), at.to_string().into_bytes()]);
        if !o.is_ok() {
            break;
        }
        v.push(Short { key, val, at, start, ack: us(t0) });
        if r.chance(1, 20) {
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    v
}

struct Taken {
    sent: u64,
    first: u64,
    end_ms: u64,
    slot: usize,
    snap: Snap,
    how: String,
}

/// takes a snapshot, reading it in some way; None: given up on purpose
fn take(srv: &Server, slot: usize, way: usize, r: &mut Rng, t0: Instant) -> Result<Option<Taken>, String> {
    let mut c = Client::connect(srv.addr).map_err(|e| e.to_string())?;
    let sent = us(t0);
    c.send_raw(&encode(&[b("syncsnapshot"), slot.to_string().into_bytes()])).map_err(|e| e.to_string())?;
    let mut v = vec![];
    let mut one = [0u8; 1];
    let _ = c.stream.set_read_timeout(Some(Duration::from_secs(20)));
    c.stream.read_exact(&mut one).map_err(|e| format!("no answer to SYNCSNAPSHOT: {}", e))?;
    let first = us(t0);
    v.push(one[0]);
    let how = match way {
        0 | 1 => {
            v.extend(wire::read_all(&mut c.stream, Duration::from_secs(20))?);
            "at full speed"
        }
        2 => {
            // small pieces
            let mut b = vec![0u8; 1 + r.below(30_000)];
            let mut n = 0;
            loop {
                match c.stream.read(&mut b) {
                    Ok(0) => break,
                    Ok(k) => v.extend_from_slice(&b[..k]),
                    Err(e) => return Err(format!("{} after {} bytes, read in pieces", e, v.len())),
                }
                n += 1;
                if n < 150 {
                    std::thread::sleep(Duration::from_micros(r.below(4000) as u64));
                }
            }
            "in small pieces"
        }
        3 => {
            std::thread::sleep(Duration::from_millis(200 + r.below(1500) as u64));
            v.extend(wire::read_all(&mut c.stream, Duration::from_secs(20))?);
            "after a pause"
        }
        _ => {
            // gives up in the middle
            let mut b = vec![0u8; 1 + r.below(100_000)];
            let _ = c.stream.read(&mut b);
            if r.chance(1, 2) {
                reset_on_close(&c.stream);
            }
            return Ok(None);
        }
    };
    let snap = wire::decode_snapshot(&v).map_err(|e| format!("{} ({} bytes, read {})", e, v.len(), how))?;
    Ok(Some(Taken { sent, first, end_ms: now_ms(), slot, snap, how: how.into() }))
}

pub fn data_of(m: &Model) -> SlotData {
    m.map.iter().map(|(k, e)| (k.clone(), (e.val.clone(), e.exp))).collect()
}

pub fn diff(a: &SlotData, b: &SlotData, an: &str, bn: &str) -> Vec<String> {
    let mut v = vec![];
    let show = |x: Option<&(Val, u64)>| x.map_or("absent".into(), |(v, e)| format!("{} deadline {}", v.show(), e));
    let keys: BTreeSet<_> = a.keys().chain(b.keys()).collect();
    for k in keys {
        if a.get(k) != b.get(k) {
            v.push(format!("{}: {} {}, {} {}", esc(k), an, show(a.get(k)), bn, show(b.get(k))));
            if v.len() > 12 {
                v.push("...".into());
                break;
            }
        }
    }
    v
}

/// each client's keys hold the effect of a prefix of its requests, and the prefixes form one cut
fn judge_cuts(ctx: &Ctx, owns: &[Own], taken: &[Taken], name: &str) {
    // walk in the order of the requests, so that each client's model only moves forward
    let mut order: Vec<&Taken> = taken.iter().collect();
    order.sort_by_key(|t| t.sent);
    let mut at: Vec<(usize, Model)> = owns.iter().map(|_| (0, Model::new())).collect();
    for t in order {
        // client -> first and last possible number of included requests
        let mut cut: Vec<(usize, usize)> = vec![];
        for (o, (n, m)) in owns.iter().zip(at.iter_mut()) {
            let lo = o.log.partition_point(|x| x.ack < t.sent);
            let hi = o.log.partition_point(|x| x.start < t.first);
            while *n < lo {
                let x = &o.log[*n];
                m.apply(&x.cmd, 1, Some(&x.out));
                *n += 1;
            }
            let covered: Vec<&Vec<u8>> = o.keys.iter().filter(|k| t.slot == wire::ALL || key_slot(k) == t.slot).collect();
            let got: Vec<Option<(Val, u64)>> = covered.iter().map(|k| t.snap.get(k).cloned()).collect();
            let same = |m: &Model| {
                covered.iter().zip(&got).all(|(k, g)| match (m.map.get(*k), g) {
                    (None, None) => true,
                    (Some(e), Some((v, x))) => e.val == *v && e.exp == *x,
                    _ => false,
                })
            };
            let mut mm = m.clone();
            let (mut a, mut z) = (None, None);
            for p in lo..=hi {
                if same(&mm) {
                    a = a.or(Some(p));
                    z = Some(p);
                }
                if p < hi {
                    let x = &o.log[p];
                    mm.apply(&x.cmd, 1, Some(&x.out));
                }
            }
            match (a, z) {
                (Some(a), Some(z)) => cut.push((a, z)),
                _ => {
                    let from = lo.saturating_sub(12);
                    let log: Vec<String> = o.log[from..(hi + 4).min(o.log.len())]
                        .iter()
                        .enumerate()
                        .map(|(i, x)| {
                            let p = from + i;
                            let w = if p < lo { "acknowledged before" } else if p < hi { "during" } else { "later" };
                            format!("{} #{} [{}..{}] {} -> {}", w, p, x.start, x.ack, esc_cmd(&x.cmd), x.out.show())
                        })
                        .collect();
                    let g: SlotData = covered.iter().zip(&got).filter_map(|(k, g)| Some(((*k).clone(), g.clone()?))).collect();
                    let w: SlotData = data_of(m).into_iter().filter(|(k, _)| covered.contains(&k)).collect();
                    return ctx.violation(
                        &format!("a snapshot shows a state client {} never reached ({})", o.prefix, name),
                        &format!(
                            "slot {} read {}; requested at {}, first byte at {}\nagainst the state after the last acknowledged request:\n{}\nlog:\n{}",
                            t.slot,
                            t.how,
                            t.sent,
                            t.first,
                            diff(&g, &w, "snapshot", "acknowledged").join("\n"),
                            log.join("\n")
                        ),
                    );
                }
            }
            ctx.max("most requests under way at a cut", (hi - lo) as u64);
        }
        // no request of one client is missing that was answered before an included one was sent
        for (i, a) in owns.iter().enumerate() {
            for (j, z) in owns.iter().enumerate() {
                if i == j || cut[i].1 >= a.log.len() || cut[j].0 == 0 {
                    continue;
                }
                let (missing, got) = (&a.log[cut[i].1], &z.log[cut[j].0 - 1]);
                if t.slot == wire::ALL && missing.ack < got.start {
                    return ctx.violation(
                        &format!("a snapshot contains a write but not one that was acknowledged before it was sent ({})", name),
                        &format!(
                            "missing: {} [{}..{}]\nincluded: {} [{}..{}]",
                            esc_cmd(&missing.cmd),
                            missing.start,
                            missing.ack,
                            esc_cmd(&got.cmd),
                            got.start,
                            got.ack
                        ),
                    );
                }
            }
        }
        ctx.eval(format!("{} {} {} {:?}", name, t.how, t.slot, cut).as_bytes());
        ctx.count(&format!("snapshots read {}", t.how), 1);
    }
}

fn judge_short(ctx: &Ctx, shorts: &[Short], t: &Taken, t0: Instant, ms0: u64, name: &str) {
    let _ = t0;
    let mut by: HashMap<&[u8], Vec<&Short>> = HashMap::new();
    for s in shorts {
        by.entry(&s.key).or_default().push(s);
    }
    for (k, v) in by {
        if t.slot != wire::ALL && key_slot(k) != t.slot {
            continue;
        }
        let must = v.iter().rposition(|s| s.ack < t.sent);
        let bad = |what: &str, s: String| {
            ctx.violation(&format!("{} ({})", what, name), &format!("key {} {}; requested at {} us, started {} ms", esc(k), s, t.sent, ms0));
        };
        match t.snap.get(k) {
            Some((val, at)) => {
                let i = v.iter().position(|s| Val::Str(s.val.clone()) == *val && s.at == *at);
                match i {
                    None => return bad("a snapshot holds a value or deadline that was never set", format!("{} deadline {}", val.show(), at)),
                    Some(i) if must.map_or(false, |m| i < m) => {
                        return bad("a snapshot misses an acknowledged write of a key with a deadline", format!("{} deadline {}", val.show(), at))
                    }
                    Some(i) if v[i].start > t.first => return bad("a snapshot holds a write sent after it", format!("{}", val.show())),
                    _ => ctx.count("keys with near deadlines in snapshots", 1),
                }
            }
            None => {
                // gone only if a write that may be the last one had its deadline pass
                if let Some(m) = must {
                    let first_ms = ms0 + t.first / 1000 + 1;
                    if v[m..].iter().all(|s| s.start > t.first || s.at > first_ms) {
                        return bad("a snapshot misses a key whose deadline lies in the future", format!("deadline {}", v[m].at));
                    }
                }
            }
        }
    }
}

/// replay of the stream up to each snapshot's number gives the snapshot's content
fn judge_numbers(ctx: &Ctx, msgs: &[Msg], snaps: &[(String, &Snap)], skip: &dyn Fn(&[u8]) -> bool, name: &str) {
    let mut per: BTreeMap<usize, Vec<&Msg>> = BTreeMap::new();
    for m in msgs {
        per.entry(m.slot).or_default().push(m);
    }
    let mut points: BTreeMap<usize, Vec<(u64, usize)>> = BTreeMap::new();
    for (i, (_, s)) in snaps.iter().enumerate() {
        for (slot, d) in &s.slots {
            if d.write_id > 0 || !d.data.is_empty() {
                points.entry(*slot).or_default().push((d.write_id, i));
            }
        }
    }
    for (slot, mut ps) in points {
        ps.sort_unstable();
        let empty = vec![];
        let ms = per.get(&slot).unwrap_or(&empty);
        let mut m = Model::new();
        let mut n = 0;
        for (id, i) in ps {
            while n < ms.len() && ms[n].id <= id {
                if ms[n].id != n as u64 + 1 {
                    return ctx.violation(
                        &format!("the writes of slot {} are not numbered one by one ({})", slot, name),
                        &format!("message {} is {}", n + 1, ms[n].show()),
                    );
                }
                wire::apply_msg(&mut m, ms[n], 1);
                n += 1;
            }
            if n as u64 != id {
                return ctx.violation(
                    &format!("a snapshot of slot {} has number {}, the stream ends at {} ({})", slot, id, n, name),
                    &ms.iter().rev().take(10).map(|m| m.show()).collect::<Vec<_>>().join("\n"),
                );
            }
            let want: SlotData = data_of(&m).into_iter().filter(|(k, _)| !skip(k)).collect();
            let got: SlotData = snaps[i].1.slots[&slot].data.iter().filter(|(k, _)| !skip(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            if want != got {
                return ctx.violation(
                    &format!("the number of a snapshot does not match its content: slot {} number {} ({})", slot, id, name),
                    &format!(
                        "{}\n{}\nlast messages:\n{}",
                        snaps[i].0,
                        diff(&got, &want, "snapshot", "stream").join("\n"),
                        ms[..n].iter().rev().take(10).map(|m| m.show()).collect::<Vec<_>>().join("\n")
                    ),
                );
            }
            ctx.count("slot snapshots compared with the stream", 1);
        }
    }
}

fn snap_load(ctx: &Ctx, r: &mut Rng, i: usize) {
    let vs = variants();
    let (vname, o) = vs[r.below(vs.len())].clone();
    let clients = *r.pick(&[1, 3, 6, 10]);
    let flush = i % 5 == 4;
    let big = r.chance(1, 4);
    let crowd = !big && i % 3 == 1;
    let name = format!(
        "{}, {} clients{}{}",
        vname,
        clients,
        if flush { ", FLUSHALL" } else { "" },
        if big {
            ", large data"
        } else if crowd {
            ", a crowded slot"
        } else {
            ""
        }
    );
    let srv = start(ctx, &o);
    let t0 = Instant::now();
    let ms0 = now_ms();
    let (mut sub, early) = match Sub::connect(srv.fwd, Duration::from_secs(10)) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("subscription: {}", e), &srv.log_tail()),
    };
    if !early.is_empty() {
        return ctx.violation("an idle server sends writes", &early[0].show());
    }
    let stop = AtomicBool::new(false);
    let slowest = AtomicU64::new(0);
    let taken: Mutex<Vec<Taken>> = Mutex::new(vec![]);
    let msgs: Mutex<Vec<Msg>> = Mutex::new(vec![]);
    // a body of data that never changes
    let mut fixed = SlotData::new();
    let mut c = srv.client();
    let n = if big {
        40
    } else if crowd {
        // thousands of keys which share one slot
        r.range(1000, 12_000) as usize
    } else {
        r.below(300)
    };
    let mut cmds = vec![];
    for j in 0..n {
        let k = if crowd { format!("fixed{}{{crowd}}", j) } else { format!("fixed{}", j) }.into_bytes();
        let (v, e) = if big {
            (Val::Str(vec![b'a' + (j % 26) as u8; 1 << 20]), 0)
        } else if crowd && j % 16 != 0 {
            (Val::Str(j.to_string().into_bytes()), *r.pick(&[0, 4_000_000_000_000]))
        } else {
            (crate::gen::Gen::new(r.fork(j as u64), 4, 0).val(), *r.pick(&[0, 4_000_000_000_000]))
        };
        if e == 0 {
            cmds.push(vec![b("restore"), k.clone(), b("0"), wire::payload(&v)]);
        } else {
            cmds.push(vec![b("restore"), k.clone(), b("4000000000000"), wire::payload(&v), b("ABSTTL")]);
        }
        fixed.insert(k, (v, e));
    }
    for o in c.pipeline(&cmds) {
        if !o.is_ok() {
            return ctx.violation(&format!("RESTORE of the fixed data: {} ({})", o.show(), name), &srv.log_tail());
        }
    }
    let secs = Duration::from_millis(700 + r.below(if ctx.thorough { 4000 } else { 900 }) as u64);
    let (owns, shorts) = std::thread::scope(|s| {
        let hs: Vec<_> = (0..clients)
            .map(|w| {
                let mut r = r.fork(100 + w as u64);
                let (srv, stop, slowest) = (&srv, &stop, &slowest);
                s.spawn(move || own_client(srv.addr, w, &mut r, t0, stop, 60_000, slowest))
            })
            .collect();
        let sh = {
            let mut r = r.fork(50);
            let (srv, stop) = (&srv, &stop);
            s.spawn(move || short_client(srv.addr, &mut r, t0, stop))
        };
        for k in 0..3u64 {
            let mut r = r.fork(200 + k);
            let (srv, stop, taken, name) = (&srv, &stop, &taken, &name);
            s.spawn(move || {
                while !stop.load(Ordering::Relaxed) && !ctx.violated() {
                    let slot = match r.below(4) {
                        0 => key_slot(b"x{t0}"),
                        1 => key_slot(b"x{t1}"),
                        _ => wire::ALL,
                    };
                    match take(srv, slot, r.below(5), &mut r, t0) {
                        Ok(Some(t)) => taken.lock().unwrap().push(t),
                        Ok(None) => ctx.count("snapshots given up by the reader", 1),
                        Err(e) => ctx.violation(&format!("a snapshot is not delivered: {} ({})", e, name), &srv.log_tail()),
                    }
                    if taken.lock().unwrap().len() > 120 {
                        break;
                    }
                    if big {
                        std::thread::sleep(Duration::from_millis(150));
                    }
                }
            });
        }
        if flush {
            let mut r = r.fork(77);
            let (srv, stop) = (&srv, &stop);
            s.spawn(move || {
                let Some(mut c) = srv.try_client() else { return };
                while !stop.load(Ordering::Relaxed) {
                    let _ = c.c(if r.chance(1, 2) { "flushall" } else { "flushall sync" });
                    std::thread::sleep(Duration::from_millis(r.below(80) as u64));
                }
            });
        }
        {
            // the subscriber keeps up
            let (msgs, stop, sub, name) = (&msgs, &stop, &mut sub, &name);
            s.spawn(move || loop {
                match sub.next(Duration::from_millis(20)) {
                    Ok(Some(m)) if m.id == 0 => (),
                    Ok(Some(m)) => msgs.lock().unwrap().push(m),
                    Ok(None) if stop.load(Ordering::Relaxed) => break,
                    Ok(None) => (),
                    Err(e) => {
                        ctx.violation(&format!("the stream of a subscriber breaks: {} ({})", e, name), "");
                        break;
                    }
                }
            });
        }
        std::thread::sleep(secs);
        stop.store(true, Ordering::Relaxed);
        let owns: Vec<Own> = hs.into_iter().map(|h| h.join().expect("client")).collect();
        (owns, sh.join().expect("client"))
    });
    if srv.dead() {
        return ctx.violation(&format!("the server died ({})", name), &srv.log_tail());
    }
    for o in &owns {
        if let Some(x) = o.log.last() {
            if x.ack == u64::MAX {
                return ctx.violation(&format!("a request is not answered while snapshots are taken ({})", name), &format!("{} {}", esc_cmd(&x.cmd), x.out.show()));
            }
        }
        ctx.count("requests during snapshots", o.log.len() as u64);
    }
    let ms = slowest.load(Ordering::Relaxed) / 1000;
    ctx.max("slowest request during snapshots, ms", ms);
    if ms > 8000 {
        return ctx.violation(&format!("a request took {} ms while snapshots were taken ({})", ms, name), "");
    }
    // the final state, and the rest of the stream
    let mut msgs = msgs.into_inner().unwrap();
    let mut taken = taken.into_inner().unwrap();
    for _ in 0..2 {
        match take(&srv, wire::ALL, 0, r, t0) {
            Ok(Some(mut t)) => {
                t.how = "at the end".into();
                taken.push(t);
            }
            Ok(None) => (),
            Err(e) => return ctx.violation(&format!("a snapshot is not delivered: {} ({})", e, name), &srv.log_tail()),
        }
    }
    if let Some(t) = taken.last() {
        if let Err(e) = sub.drain_to(&mut msgs, &t.snap, Duration::from_secs(15)) {
            return ctx.violation(&format!("stream: {} ({})", e, name), &srv.log_tail());
        }
    }
    for t in &taken {
        let want = if t.slot == wire::ALL { 16384 } else { 1 };
        if t.snap.slots.len() != want || (want == 1 && !t.snap.slots.contains_key(&t.slot)) {
            return ctx.violation(&format!("a snapshot of slot {} holds {} slots ({})", t.slot, t.snap.slots.len(), name), "");
        }
        if !flush {
            judge_short(ctx, &shorts, t, t0, ms0, &name);
            if t.slot == wire::ALL {
                let got: SlotData = t.snap.all().into_iter().filter(|(k, _)| k.starts_with(b"fixed")).collect();
                if got != fixed {
                    return ctx.violation(
                        &format!("a snapshot does not hold the data that never changed ({})", name),
                        &diff(&got, &fixed, "snapshot", "written").join("\n"),
                    );
                }
                let other: Vec<_> = t.snap.all().keys().filter(|k| !k.starts_with(b"fixed") && !k.starts_with(b"short") && !k.starts_with(b"w")).map(|k| esc(k)).collect();
                if !other.is_empty() {
                    return ctx.violation(&format!("a snapshot holds keys nobody wrote ({})", name), &other.join(", "));
                }
            }
        }
        ctx.max("largest snapshot, bytes", t.snap.bytes as u64);
        let _ = t.end_ms;
    }
    if ctx.violated() {
        return;
    }
    if !flush {
        judge_cuts(ctx, &owns, &taken, &name);
    }
    let snaps: Vec<(String, &Snap)> = taken.iter().map(|t| (format!("slot {} requested at {} read {}", t.slot, t.sent, t.how), &t.snap)).collect();
    judge_numbers(ctx, &msgs, &snaps, &|k| k.starts_with(b"short"), &name);
    ctx.count("stream messages", msgs.len() as u64);
    ctx.count("snapshots", taken.len() as u64);
    if flush {
        ctx.eval_n(taken.len() as u64);
    }
    ctx.sample(format!("{}: {} snapshots, {} messages", name, taken.len(), msgs.len()));
}

/// a value of `m` elements
fn large(kind: usize, m: usize) -> Val {
    let e = |i: usize| format!("element {}", i).into_bytes();
    match kind % 4 {
        0 => Val::List((0..m).map(e).collect()),
        1 => Val::Hash((0..m).map(|i| (e(i), i.to_string().into_bytes())).collect()),
        2 => Val::Set((0..m).map(e).collect()),
        _ => Val::Zset((0..m).map(|i| (e(i), (i % 97) as f64)).collect()),
    }
}

/// idle server: repeated snapshots, many at once, each complete and equal; nothing changes
fn snap_idle(ctx: &Ctx, r: &mut Rng, turn: usize) {
    let srv = start(ctx, &Opts::default());
    let mut c = srv.client();
    // large values; many keys; many keys in one slot; large collections
    let shape = [2, 3, 0, 1][turn % 4];
    ctx.count(["idle, large values", "idle, many keys", "idle, many keys in one slot", "idle, large collections"][shape], 1);
    let big = shape == 0;
    let mut g = crate::gen::Gen::new(r.fork(9), 4, 0);
    let mut want = SlotData::new();
    let mut cmds = vec![];
    for j in 0..match shape {
        0 => 30,
        1 => 4000,
        2 => [70_000, 3_000, 9_000, 30_000][turn / 4 % 4] + r.below(1000),
        _ => 8,
    } {
        let k = if shape == 2 { format!("i{}{{crowd}}", j) } else { format!("i{}", j) }.into_bytes();
        let m = r.range(2000, 70_000) as usize;
        let v = match shape {
            0 => Val::Str(r.bytes(1 << 20)),
            1 => g.val(),
            2 => Val::Str(j.to_string().into_bytes()),
            _ => large(j as usize, m),
        };
        let e = *r.pick(&[0, 0, 3_999_999_999_999]);
        let mut q = vec![b("restore"), k.clone(), e.to_string().into_bytes(), wire::payload(&v)];
        if e > 0 {
            q.push(b("absttl"));
        }
        cmds.push(q);
        want.insert(k, (v, e));
    }
    for o in c.pipeline(&cmds) {
        if !o.is_ok() {
            return ctx.violation(&format!("RESTORE: {}", o.show()), &srv.log_tail());
        }
    }
    let t0 = Instant::now();
    let n = 1 + r.below(8);
    let stall = r.chance(1, 3);
    let first: Mutex<Option<Snap>> = Mutex::new(None);
    let rs: Vec<Rng> = (0..n).map(|i| r.fork(i as u64)).collect();
    par(n, |i| {
        let mut r = rs[i].clone();
        if stall && i == 0 {
            // a reader that pauses for a long time
            let go = || -> Result<Snap, String> {
                let mut c = Client::connect(srv.addr).map_err(|e| e.to_string())?;
                c.send_raw(&encode(&[b("syncsnapshot"), wire::ALL.to_string().into_bytes()])).map_err(|e| e.to_string())?;
                std::thread::sleep(Duration::from_secs(ctx.n(4, 25) as u64));
                wire::decode_snapshot(&wire::read_all(&mut c.stream, Duration::from_secs(20))?)
            };
            match go() {
                Ok(s) if s.all() == want => ctx.count("snapshots read after a long pause", 1),
                Ok(s) => ctx.violation("a snapshot read after a long pause is not complete", &diff(&s.all(), &want, "snapshot", "written").join("\n")),
                Err(e) => ctx.violation(&format!("a snapshot read after a long pause is not delivered: {}", e), &srv.log_tail()),
            }
            return;
        }
        match take(&srv, wire::ALL, r.below(4), &mut r, t0) {
            Ok(Some(t)) => {
                if t.snap.all() != want {
                    ctx.violation(
                        &format!("a snapshot of an idle server is not its data (read {}, {} at once)", t.how, n),
                        &diff(&t.snap.all(), &want, "snapshot", "written").join("\n"),
                    );
                }
                let mut f = first.lock().unwrap();
                match &*f {
                    Some(s) if s.slots != t.snap.slots => ctx.violation("two snapshots of an idle server differ", &format!("{} at once", n)),
                    Some(_) => (),
                    None => *f = Some(t.snap),
                }
                ctx.eval(format!("idle {} {} {}", n, shape, t.how).as_bytes());
            }
            Ok(None) => (),
            Err(e) => ctx.violation(&format!("a snapshot of an idle server is not delivered: {} ({} at once)", e, n), &srv.log_tail()),
        }
        ctx.count("snapshots of idle servers", 1);
    });
    // requested again and again on the same slots by readers who leave
    for _ in 0..10 {
        let _ = take(&srv, wire::ALL, 4, r, t0);
    }
    // the data is still served as it was written
    for _ in 0..40 {
        let i = r.below(want.len());
        let (k, (v, e)) = want.iter().nth(i).unwrap();
        let d = match c.cmd(&[b("dump"), k.clone()]) {
            Out::Reply(Reply::Bulk(d)) => wire::dump_full(&d),
            o => Err(o.show()),
        };
        if d != Ok((v.clone(), *e)) {
            return ctx.violation("taking snapshots changed the data", &format!("{}: {:?}", esc(k), d.map(|d| d.0.show())));
        }
    }
}

/// a reader that stops for seconds, again and again, while the data changes: it still gets all of the cut
fn snap_stalled(ctx: &Ctx, r: &mut Rng) {
    let srv = start(ctx, &Opts::default());
    let mut c = srv.client();
    let mut want = SlotData::new();
    // more than sockets hold
    for j in 0..40 {
        let (k, v) = (format!("s{}", j).into_bytes(), r.bytes(1 << 20));
        if !c.cmd(&[b("set"), k.clone(), v.clone()]).is_ok() {
            return ctx.violation("SET is refused", &srv.log_tail());
        }
        want.insert(k, (Val::Str(v), 0));
    }
    let mut go = || -> Result<Snap, String> {
        let mut s = Client::connect(srv.addr).map_err(|e| e.to_string())?;
        s.send_raw(&encode(&[b("syncsnapshot"), wire::ALL.to_string().into_bytes()])).map_err(|e| e.to_string())?;
        let _ = s.stream.set_read_timeout(Some(Duration::from_secs(20)));
        let mut v = vec![0u8; 1];
        s.stream.read_exact(&mut v).map_err(|e| format!("no answer: {}", e))?;
        // the cut is made: nothing of this belongs to it
        for j in 0..40 {
            let _ = c.cmd(&[b("set"), format!("s{}", j).into_bytes(), b("later")]);
            let _ = c.cmd(&[b("set"), format!("l{}", j).into_bytes(), b("later")]);
        }
        let _ = c.c("flushall");
        for pause in 0..3 {
            std::thread::sleep(Duration::from_millis(ctx.n([17_000, 2_500, 1_000][pause], 45_000) as u64));
            // less than what fills the sockets again
            let mut part = vec![0u8; 6 << 20];
            s.stream.read_exact(&mut part).map_err(|e| format!("{} after {} bytes and {} pauses", e, v.len(), pause + 1))?;
            v.extend(part);
        }
        v.extend(wire::read_all(&mut s.stream, Duration::from_secs(20))?);
        wire::decode_snapshot(&v)
    };
    match go() {
        Ok(s) if s.all() == want => {
            ctx.count("snapshots read with pauses of several seconds", 1);
            ctx.eval(b"stalled");
        }
        Ok(s) => ctx.violation(
            "a snapshot read with pauses of several seconds is not the cut",
            &diff(&s.all(), &want, "snapshot", "written").iter().map(|l| l.chars().take(100).collect::<String>()).collect::<Vec<_>>().join("\n"),
        ),
        Err(e) => ctx.violation(&format!("a snapshot read with pauses of several seconds is not delivered: {}", e), &srv.log_tail()),
    }
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("one evaluation: one snapshot taken from a real server under load, decoded completely and judged against the histories of all clients (prefix per client, one common cut, deadlines) and against the replication stream (content for its number); distinct: scenario, way of reading, slot and cut differ");
    ctx.assume("the keys of each judged client are written by that client only, one request at a time");
    let until = ctx.deadline(16, 600);
    let next = AtomicU64::new(0);
    par(6, |t| {
        let mut r = ctx.rng(t as u64);
        if t == 5 {
            return snap_stalled(ctx, &mut r);
        }
        while Instant::now() < until && !ctx.violated() {
            let i = next.fetch_add(1, Ordering::Relaxed) as usize;
            if i % 4 == 3 {
                snap_idle(ctx, &mut r, i / 4);
            } else {
                snap_load(ctx, &mut r, i);
            }
            ctx.count("scenarios", 1);
        }
    });
}



// ---- the replication stream

/// one subscriber's view
struct View {
    name: String,
    confirmed: u64,
    base: Snap,
    msgs: Vec<Msg>,
}

/// joins, takes a snapshot, then reads until told to stop
fn subscribe(srv: &Server, name: String, lazy: bool, r: &mut Rng, t0: Instant, stop: &AtomicBool, last: &Mutex<Option<Snap>>) -> Result<View, String> {
    let (mut sub, early) = Sub::connect(srv.fwd, Duration::from_secs(15)).map_err(|e| format!("{}: subscription: {}", name, e))?;
    let confirmed = us(t0);
    let mut v = View { name, confirmed, base: Snap::default(), msgs: early };
    v.base = wire::snapshot(srv.addr, wire::ALL).map_err(|e| format!("{}: snapshot: {}", v.name, e))?;
    if lazy {
        // nothing is read for a while
        std::thread::sleep(Duration::from_millis(r.below(1200) as u64));
    }
    let mut n = 0u32;
    loop {
        match sub.next(Duration::from_millis(20)) {
            Ok(Some(m)) if m.id == 0 && m.cmd == WCmd::None => (),
            Ok(Some(m)) => v.msgs.push(m),
            Ok(None) if stop.load(Ordering::Relaxed) => break,
            Ok(None) => (),
            Err(e) => return Err(format!("{}: {}", v.name, e)),
        }
        n += 1;
        if r.chance(1, 200) {
            // pings among the writes, in pieces too
            let k = 1 + r.below(wire::SYNC_PING.len() - 1);
            let ping = wire::SYNC_PING;
            let whole = r.chance(1, 2);
            let _ = sub.stream.write_all(if whole { ping } else { &ping[..k] });
            if !whole {
                let _ = sub.stream.write_all(&ping[k..]);
            }
        }
        if lazy && n % 2000 == 0 {
            std::thread::sleep(Duration::from_millis(r.below(60) as u64));
        }
    }
    // what was written before the subscription does not come
    let mut target = last.lock().unwrap().clone().unwrap_or_default();
    for (slot, d) in &mut target.slots {
        if v.base.slots.get(slot).map_or(false, |b| b.write_id >= d.write_id) {
            d.write_id = 0;
        }
    }
    sub.drain_to(&mut v.msgs, &target, Duration::from_secs(15)).map_err(|e| format!("{}: {}", v.name, e))?;
    Ok(v)
}

fn uid_writes(log: &[OpRec]) -> impl Iterator<Item = (&OpRec, &[u8])> {
    // plain SET that was executed
    log.iter().filter(|x| x.cmd.len() == 3 && x.cmd[0] == b"set" && x.out.is_ok()).map(|x| (x, &x.cmd[2][..]))
}

fn judge_view(ctx: &Ctx, v: &View, last: &Snap, end_ms: u64, name: &str) {
    let mut per: BTreeMap<usize, Vec<&Msg>> = BTreeMap::new();
    for m in &v.msgs {
        per.entry(m.slot).or_default().push(m);
    }
    let gone = |e: u64| e != 0 && e <= end_ms + 5;
    for slot in 0..wire::ALL {
        let ms: &[&Msg] = per.get(&slot).map_or(&[], |v| v);
        let (b0, f) = (&v.base.slots[&slot], &last.slots[&slot]);
        let tail = |i: usize| ms[i.saturating_sub(3)..(i + 3).min(ms.len())].iter().map(|m| m.show()).collect::<Vec<_>>().join("\n");
        for (i, w) in ms.windows(2).enumerate() {
            if w[1].id != w[0].id + 1 {
                let what = if w[1].id <= w[0].id { "twice or out of order" } else { "with a gap" };
                return ctx.violation(
                    &format!("a subscriber receives the writes of a slot {} ({})", what, name),
                    &format!("{}: slot {}: number {} follows {}\n{}", v.name, slot, w[1].id, w[0].id, tail(i)),
                );
            }
        }
        let new: Vec<&&Msg> = ms.iter().filter(|m| m.id > b0.write_id).collect();
        let first = new.first().map_or(b0.write_id + 1, |m| m.id);
        let end = new.last().map_or(b0.write_id, |m| m.id);
        if first != b0.write_id + 1 || end != f.write_id {
            return ctx.violation(
                &format!("a subscriber misses writes of a slot ({})", name),
                &format!(
                    "{}: slot {}: snapshot after the confirmation has number {}, then {} messages {}..{}, the final number is {}",
                    v.name, slot, b0.write_id, new.len(), first, end, f.write_id
                ),
            );
        }
        if new.is_empty() && b0.data.is_empty() && f.data.is_empty() {
            continue;
        }
        let mut m = Model::new();
        for (k, (val, e)) in &b0.data {
            m.map.insert(k.clone(), Entry { val: val.clone(), exp: *e });
        }
        for x in &new {
            if let Some(k) = x.key() {
                if key_slot(&k) != slot {
                    return ctx.violation("a write is sent under another slot than its key's", &x.show());
                }
            }
            wire::apply_msg(&mut m, x, 1);
        }
        let want: SlotData = data_of(&m).into_iter().filter(|(_, (_, e))| !gone(*e)).collect();
        let got: SlotData = f.data.iter().filter(|(_, (_, e))| !gone(*e)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if want != got {
            return ctx.violation(
                &format!("applying the stream to the state at the subscription does not give the leader's data ({})", name),
                &format!("{}: slot {}\n{}\n{}", v.name, slot, diff(&got, &want, "leader", "replayed").join("\n"), tail(ms.len())),
            );
        }
        ctx.count("slots replayed", 1);
    }
    ctx.eval(format!("{} {} {}", name, v.name, v.msgs.len()).as_bytes());
}

/// a subscriber that reads nothing while far more than the sockets hold is written, large values among it
fn stream_backlog(ctx: &Ctx, r: &mut Rng, large: bool) {
    let name = if large { "backlog of large values" } else { "backlog of small writes" };
    let srv = start(ctx, &Opts::default());
    let t0 = Instant::now();
    let (mut sub, early) = match Sub::connect(srv.fwd, Duration::from_secs(15)) {
        Ok(x) => x,
        Err(e) => return ctx.violation(&format!("subscription: {} ({})", e, name), &srv.log_tail()),
    };
    let mut v = View { name: name.into(), confirmed: us(t0), base: Snap::default(), msgs: early };
    let mut snap = |how: &str| match wire::snapshot(srv.addr, wire::ALL) {
        Ok(s) => Some(s),
        Err(e) => {
            ctx.violation(&format!("{} snapshot: {} ({})", how, e, name), &srv.log_tail());
            None
        }
    };
    let Some(base) = snap("first") else { return };
    v.base = base;
    let (total, burst) = if large { (400, 8) } else { (150_000 + r.below(50_000), 1000) };
    std::thread::scope(|s| {
        for w in 0..2 {
            let mut r = r.fork(w);
            let srv = &srv;
            s.spawn(move || {
                let mut c = srv.client();
                let mut n = 0;
                while n < total / 2 {
                    let cmds: Vec<Cmd> = (0..burst)
                        .map(|_| {
                            n += 1;
                            let k = format!("bl{}.{}", w, r.below(40)).into_bytes();
                            if large && n % 3 != 0 {
                                let len = *r.pick(&[100, 4096, 20_000, 65_536, 70_000, 300_000]);
                                vec![b("set"), k, r.bytes(len)]
                            } else {
                                vec![b("hset"), [k, b("h")].concat(), b("f"), n.to_string().into_bytes()]
                            }
                        })
                        .collect();
                    if !matches!(c.pipeline(&cmds).last(), Some(Out::Reply(_))) {
                        return ctx.violation(&format!("a request is not answered while a subscriber does not read ({})", name), "");
                    }
                }
            });
        }
    });
    let Some(last) = snap("last") else { return };
    let mut target = last.clone();
    for (slot, d) in &mut target.slots {
        if v.base.slots.get(slot).map_or(false, |b| b.write_id >= d.write_id) {
            d.write_id = 0;
        }
    }
    if let Err(e) = sub.drain_to(&mut v.msgs, &target, Duration::from_secs(60)) {
        return ctx.violation(&format!("a subscriber that was late fails: {} ({})", e, name), &srv.log_tail());
    }
    judge_view(ctx, &v, &last, now_ms(), name);
    ctx.count("messages to subscribers that were late", v.msgs.len() as u64);
    ctx.count("scenarios", 1);
}

fn stream_load(ctx: &Ctx, r: &mut Rng, i: usize) {
    let vs = variants();
    let (vname, o) = vs[r.below(vs.len())].clone();
    let clients = *r.pick(&[1, 2, 4, 8]);
    let flush = i % 3 == 2;
    let subs = 2 + r.below(3);
    let bad = r.chance(1, 2);
    let name = format!(
        "{}, {} clients, {} subscribers{}{}",
        vname,
        clients,
        subs,
        if flush { ", FLUSHALL" } else { "" },
        if bad { ", stalled and failing subscribers" } else { "" }
    );
    let srv = start(ctx, &o);
    let fds = srv.fd_count();
    let t0 = Instant::now();
    let (stop, quiet) = (AtomicBool::new(false), AtomicBool::new(false));
    let slowest = AtomicU64::new(0);
    // some data before anybody subscribes
    if r.chance(1, 2) {
        let never = AtomicBool::new(false);
        own_client(srv.addr, 77, &mut r.fork(77), t0, &never, 500, &slowest);
    }
    let load = Duration::from_millis(500 + r.below(if ctx.thorough { 5000 } else { 900 }) as u64);
    let mut owns: Vec<Own> = vec![];
    let mut views: Vec<View> = vec![];
    let mut last = Err("no snapshot".to_string());
    let end: Mutex<Option<Snap>> = Mutex::new(None);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..clients)
            .map(|w| {
                let mut r = r.fork(100 + w as u64);
                let (srv, stop, slowest) = (&srv, &stop, &slowest);
                s.spawn(move || own_client(srv.addr, w, &mut r, t0, stop, 40_000, slowest))
            })
            .collect();
        let others: Vec<_> = {
            let mut v = vec![];
            let (srv, stop) = (&srv, &stop);
            let mut ra = r.fork(51);
            v.push(s.spawn(move || {
                short_client(srv.addr, &mut ra, t0, stop);
            }));
            // shared keys, bursts, refused commands
            let mut ra = r.fork(52);
            v.push(s.spawn(move || {
                let Some(mut c) = srv.try_client() else { return };
                let mut n = 0;
                while !stop.load(Ordering::Relaxed) && n < 40_000 {
                    let cmds: Vec<Cmd> = (0..1 + ra.below(80))
                        .map(|_| {
                            n += 1;
                            let (k, o) = (format!("sh{}", ra.below(8)).into_bytes(), format!("sh{}", ra.below(8)).into_bytes());
                            let f = ra.below(6);
                            menu(&mut ra, f, &k, &o, &format!("b{}", n))
                        })
                        .collect();
                    let os = c.pipeline(&cmds);
                    if !matches!(os.last(), Some(Out::Reply(_))) {
                        return;
                    }
                }
            }));
            if flush {
                let mut ra = r.fork(53);
                v.push(s.spawn(move || {
                    let Some(mut c) = srv.try_client() else { return };
                    while !stop.load(Ordering::Relaxed) {
                        let _ = c.c(if ra.chance(1, 2) { "flushall" } else { "flushall sync" });
                        std::thread::sleep(Duration::from_millis(ra.below(120) as u64));
                    }
                }));
            }
            v
        };
        if bad {
            let mut r = r.fork(60);
            let (srv, stop) = (&srv, &stop);
            s.spawn(move || {
                let mut stalled = vec![];
                while !stop.load(Ordering::Relaxed) {
                    let Ok(c) = TcpStream::connect(srv.fwd) else { break };
                    match r.below(6) {
                        0 | 1 if stalled.len() < 4 => {
                            let _ = (&c).write_all(wire::SYNC_CMD);
                            stalled.push(c);
                        }
                        2 => {
                            let _ = (&c).write_all(&wire::SYNC_CMD[..r.below(17)]);
                        }
                        3 => {
                            let _ = (&c).write_all(wire::SYNC_CMD);
                            let mut b = vec![0u8; r.below(3000)];
                            let _ = c.set_read_timeout(Some(Duration::from_millis(20)));
                            let _ = (&c).read(&mut b);
                            reset_on_close(&c);
                        }
                        4 => reset_on_close(&c),
                        _ => {
                            let g = r.bytes(3000);
                            let _ = (&c).write_all(&g);
                        }
                    }
                    std::thread::sleep(Duration::from_millis(r.below(30) as u64));
                }
            });
        }
        let vh: Vec<_> = (0..subs)
            .map(|k| {
                let mut r = r.fork(300 + k as u64);
                let (srv, quiet, end) = (&srv, &quiet, &end);
                s.spawn(move || {
                    if k > 0 {
                        std::thread::sleep(Duration::from_millis(r.below(700) as u64));
                    }
                    let lazy = r.chance(1, 2);
                    subscribe(srv, format!("subscriber {}{}", k, if lazy { " (slow)" } else { "" }), lazy, &mut r, t0, quiet, end)
                })
            })
            .collect();
        std::thread::sleep(load);
        stop.store(true, Ordering::Relaxed);
        owns = hs.into_iter().map(|h| h.join().expect("client")).collect();
        for h in others {
            h.join().expect("client");
        }
        last = wire::snapshot(srv.addr, wire::ALL);
        *end.lock().unwrap() = last.as_ref().ok().cloned();
        quiet.store(true, Ordering::Relaxed);
        for h in vh {
            match h.join().expect("subscriber") {
                Ok(v) => views.push(v),
                Err(e) => ctx.violation(&format!("a healthy subscriber fails: {} ({})", e, name), &srv.log_tail()),
            }
        }
    });
    if srv.dead() {
        return ctx.violation(&format!("the server died ({})", name), &srv.log_tail());
    }
    // all snapshots were taken before now
    let end_ms = now_ms();
    let last = match last {
        Ok(l) => l,
        Err(e) => return ctx.violation(&format!("final snapshot: {} ({})", e, name), &srv.log_tail()),
    };
    for o in &owns {
        if let Some(x) = o.log.last() {
            if x.ack == u64::MAX {
                return ctx.violation(&format!("a request is not answered ({})", name), &format!("{} {}", esc_cmd(&x.cmd), x.out.show()));
            }
        }
    }
    let ms = slowest.load(Ordering::Relaxed) / 1000;
    ctx.max("slowest request, ms", ms);
    if ms > 8000 {
        return ctx.violation(&format!("subscribers delay clients: a request took {} ms ({})", ms, name), "");
    }
    for v in &views {
        judge_view(ctx, v, &last, end_ms, &name);
        if ctx.violated() {
            return;
        }
        // each acknowledged unique write appears once
        let mut seen: HashMap<&[u8], u32> = HashMap::new();
        for m in &v.msgs {
            if let WCmd::Cmd(c) = &m.cmd {
                if c[0] == b"set" && c.len() > 2 && c[1].starts_with(b"w") {
                    *seen.entry(&c[2]).or_default() += 1;
                }
            }
        }
        for o in &owns {
            for (x, uid) in uid_writes(&o.log) {
                let n = seen.get(uid).copied().unwrap_or(0);
                if n > 1 || (n == 0 && x.start > v.confirmed) {
                    return ctx.violation(
                        &format!("a subscriber receives an acknowledged write {} times ({})", n, name),
                        &format!("{}: {} [{}..{}], subscription confirmed at {}", v.name, esc_cmd(&x.cmd), x.start, x.ack, v.confirmed),
                    );
                }
                ctx.count("unique writes looked for", 1);
            }
        }
        ctx.count("messages received", v.msgs.len() as u64);
    }
    // all subscribers got the same write under the same number
    let mut by: HashMap<(usize, u64), &WCmd> = HashMap::new();
    for v in &views {
        for m in &v.msgs {
            if let Some(c) = by.insert((m.slot, m.id), &m.cmd) {
                if *c != m.cmd {
                    return ctx.violation(&format!("two subscribers receive different writes under one number ({})", name), &m.show());
                }
            }
        }
    }
    // those who left are forgotten
    let mut now = 0;
    if !wait_until(Duration::from_secs(15), || {
        now = srv.fd_count();
        now <= fds + 4
    }) {
        ctx.violation(&format!("connections of subscribers who left stay open ({})", name), &format!("{} descriptors, {} at the start", now, fds));
    }
    ctx.count("scenarios", 1);
    ctx.sample(format!("{}: {} messages each", name, views.iter().map(|v| v.msgs.len().to_string()).collect::<Vec<_>>().join("/")));
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("one evaluation: the whole stream one subscriber received from a real server under load, judged slot by slot: numbers without gap or repeat, joined to a snapshot taken after the confirmation, replayed by the reference model to the final snapshot; distinct: scenario, subscriber and length differ");
    ctx.assume("keys whose deadline passes during a run are only written as a whole");
    let until = ctx.deadline(16, 600);
    let next = AtomicU64::new(0);
    par(4, |t| {
        let mut r = ctx.rng(t as u64);
        while Instant::now() < until && !ctx.violated() {
            let i = next.fetch_add(1, Ordering::Relaxed) as usize;
            if i % 12 == 3 || i % 12 == 5 {
                stream_backlog(ctx, &mut r, i % 12 == 3);
            } else {
                stream_load(ctx, &mut r, i);
            }
        }
    });
}
