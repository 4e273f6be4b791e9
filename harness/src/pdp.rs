//! The placement driver: identities, one leader per group (C21), failover (C22).
//!
//! The real placement driver is spoken to in its own protocol. Its wall clock is frozen by the shim
//! and moved in steps; the survival check itself runs in real time, so between two requests it may or
//! may not have run: the monitor keeps the set of states the driver may be in, and an answer that no
//! state gives is a violation. A sentinel group tells when a check has run for certain.
use crate::ctx::*;
use crate::net::reset_on_close;
use crate::resp::*;
use crate::srv::*;
use crate::util::*;
use crate::wire::{self, Rd, Wr};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Info {
    pub id: u64,
    pub server: SocketAddr,
    pub fwd: SocketAddr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Status {
    pub id: u64,
    pub group: u64,
    pub leader: bool,
    pub cur: Option<Info>,
}

impl Status {
    pub fn show(&self) -> String {
        format!(
            "server {} of group {}: {}, leader {}",
            self.id,
            self.group,
            if self.leader { "leader" } else { "follower" },
            self.cur.map_or("none".into(), |c| format!("{} ({}, {})", c.id, c.server, c.fwd))
        )
    }
    fn write(&self, w: &mut Wr) {
        w.u64(self.id).u64(self.group).u32(u32::from(!self.leader));
        match &self.cur {
            None => {
                w.u8(0);
            }
            Some(c) => {
                w.u8(1).u64(c.id).addr(c.server).addr(c.fwd);
            }
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = Wr::default();
        self.write(&mut w);
        w.0
    }
    /// the answer to a heartbeat
    pub fn encode_opt(s: &Option<Status>) -> Vec<u8> {
        let mut w = Wr::default();
        match s {
            None => {
                w.u8(0);
            }
            Some(s) => {
                w.u8(1);
                s.write(&mut w);
            }
        }
        w.0
    }
    pub fn read(r: &mut Rd) -> Result<Status, String> {
        let (id, group) = (r.u64()?, r.u64()?);
        let leader = match r.u32()? {
            0 => true,
            1 => false,
            n => return Err(format!("role {}", n)),
        };
        let cur = match r.u8()? {
            0 => None,
            1 => Some(Info { id: r.u64()?, server: r.addr()?, fwd: r.addr()? }),
            n => return Err(format!("option {}", n)),
        };
        Ok(Status { id, group, leader, cur })
    }
}

pub fn init_req(group: u64, server: SocketAddr, fwd: SocketAddr) -> Vec<Vec<u8>> {
    let mut w = Wr::default();
    w.u64(group).addr(server).addr(fwd);
    vec![b("pd_sever_init"), w.0]
}

pub fn beat_req(s: &Status) -> Vec<Vec<u8>> {
    vec![b("pd_sever_heartbeat"), s.encode()]
}

pub fn group_req() -> Vec<Vec<u8>> {
    vec![b("pd_crate_group")]
}

/// the answer to a registration; None: refused
pub fn init_answer(o: &Out) -> Result<Option<Status>, String> {
    match o {
        Out::Reply(Reply::Bulk(v)) => {
            let mut r = Rd::new(v);
            let s = Status::read(&mut r)?;
            if !r.done() {
                return Err(format!("trailing bytes: {}", esc(v)));
            }
            Ok(Some(s))
        }
        Out::Reply(Reply::Err(_)) => Ok(None),
        o => Err(o.show()),
    }
}

/// the answer to a heartbeat
pub fn beat_answer(o: &Out) -> Result<Option<Status>, String> {
    match o {
        Out::Reply(Reply::Bulk(v)) => {
            let mut r = Rd::new(v);
            let s = match r.u8()? {
                0 => None,
                1 => Some(Status::read(&mut r)?),
                n => return Err(format!("option {}", n)),
            };
            if !r.done() {
                return Err(format!("trailing bytes: {}", esc(v)));
            }
            Ok(s)
        }
        o => Err(o.show()),
    }
}

/// silence after which a leader is replaced
const SILENT: u64 = 3000;
/// the statement fixes no exact millisecond
const SLACK: u64 = 50;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Sv {
    info: Info,
    hb: u64,
    join: u64,
    leader: bool,
}

/// what the placement driver may know about one group
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Gr {
    id: u64,
    svs: Vec<Sv>,
    cur: Option<Info>,
}

/// Some(silent), None: either
fn silent(s: &Sv, now: u64) -> Option<bool> {
    let d = now - s.hb;
    if d > SILENT + SLACK {
        Some(true)
    } else if d < SILENT - SLACK {
        Some(false)
    } else {
        None
    }
}

impl Gr {
    fn status(&self, i: usize) -> Status {
        Status { id: self.svs[i].info.id, group: self.id, leader: self.svs[i].leader, cur: self.cur }
    }
    fn find(&self, id: u64) -> Option<usize> {
        self.svs.iter().position(|s| s.info.id == id)
    }
    /// the states after a survival check
    fn check(&self, now: u64) -> Vec<Gr> {
        let mut out = vec![];
        let mut base = self.clone();
        if let Some(l) = self.svs.iter().position(|s| s.leader) {
            match silent(&self.svs[l], now) {
                Some(false) => return vec![self.clone()],
                None => out.push(self.clone()),
                Some(true) => (),
            }
            base.svs[l].leader = false;
        }
        let old = self.svs.iter().position(|s| s.leader);
        let alive: Vec<usize> = (0..base.svs.len())
            .filter(|i| silent(&base.svs[*i], now) != Some(true) && Some(*i) != old)
            .collect();
        let sure = alive.iter().filter(|i| silent(&base.svs[**i], now) == Some(false)).map(|i| base.svs[*i].join).min();
        if sure.is_none() {
            out.push(base.clone());
        }
        for i in alive {
            if sure.map_or(true, |j| base.svs[i].join <= j) {
                let mut g = base.clone();
                g.svs[i].leader = true;
                g.cur = Some(g.svs[i].info);
                out.push(g);
            }
        }
        out
    }
}

struct Group {
    states: HashSet<Gr>,
    log: Vec<String>,
    /// how each server behaves: steps of silence left
    mute: Vec<u32>,
    /// last status each server was told
    known: Vec<Status>,
    leaders: BTreeSet<u64>,
}

impl Group {
    fn note(&mut self, s: String) {
        if self.log.len() > 400 {
            self.log.drain(..200);
        }
        self.log.push(s);
    }
    fn may_check(&mut self, now: u64) {
        let more: Vec<Gr> = self.states.iter().flat_map(|g| g.check(now)).collect();
        self.states.extend(more);
    }
    fn must_check(&mut self, now: u64) {
        self.states = self.states.iter().flat_map(|g| g.check(now)).collect();
    }
    fn any(&self) -> &Gr {
        self.states.iter().next().expect("state")
    }
    fn dump(&self) -> String {
        let n = self.log.len().saturating_sub(120);
        format!("history of the group (clock in ms):\n{}", self.log[n..].join("\n"))
    }
}

struct Sentinel {
    svs: [Status; 2],
    hb: u64,
}

struct Drive<'a> {
    ctx: &'a Ctx,
    pd: Pd,
    cs: Vec<Client>,
    now: u64,
    t0: u64,
    groups: Vec<Group>,
    /// ids of all groups that exist, sentinels included
    made: u64,
    ids: Vec<u64>,
    sentinels: Vec<Sentinel>,
    settled: u64,
    r: Rng,
}

fn any_addr(r: &mut Rng) -> SocketAddr {
    let port = r.next() as u16;
    if r.chance(1, 5) {
        let b = r.bytes(16);
        SocketAddr::new(IpAddr::V6(Ipv6Addr::from(<[u8; 16]>::try_from(b).unwrap())), port)
    } else if r.chance(1, 3) {
        SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 1 + r.below(3) as u16)
    } else {
        SocketAddr::new(IpAddr::V4(Ipv4Addr::from(r.next() as u32)), port)
    }
}

impl Drive<'_> {
    fn client(&mut self) -> &mut Client {
        let n = self.cs.len();
        let i = self.r.below(n);
        &mut self.cs[i]
    }
    fn bad(&self, g: usize, what: &str) {
        self.ctx.violation(what, &self.groups[g].dump());
    }
    fn set_clock(&mut self, now: u64) {
        for g in &mut self.groups {
            g.may_check(self.now);
        }
        self.now = now;
        self.pd.clock.as_ref().unwrap().freeze(now);
    }
    fn make_group(&mut self) -> Option<u64> {
        let o = self.client().cmd(&group_req());
        if !o.is_ok() {
            self.ctx.violation(&format!("a group is not created: {}", o.show()), &self.pd.log_tail());
            return None;
        }
        self.made += 1;
        Some(self.made)
    }
    fn add_group(&mut self) {
        if let Some(id) = self.make_group() {
            let g = Gr { id, svs: vec![], cur: None };
            self.ids.push(id);
            self.groups.push(Group {
                states: [g].into_iter().collect(),
                log: vec![format!("group {} created", id)],
                mute: vec![],
                known: vec![],
                leaders: BTreeSet::new(),
            });
        }
    }
    /// a group whose servers only speak when the monitor wants to know that a check has run
    fn add_sentinel(&mut self) {
        let Some(id) = self.make_group() else { return };
        let a = local(1);
        let mut v = vec![];
        for _ in 0..2 {
            let o = self.client().cmd(&init_req(id, a, a));
            match init_answer(&o) {
                Ok(Some(s)) => v.push(s),
                e => return self.ctx.violation(&format!("registration in group {}: {:?}", id, e), &self.pd.log_tail()),
            }
        }
        let hb = self.now;
        self.sentinels.push(Sentinel { svs: [v[0], v[1]], hb });
    }
    /// returns after a survival check has certainly run at the current clock
    fn settle(&mut self) {
        self.sentinels.sort_by_key(|s| s.hb);
        let now = self.now;
        if self.sentinels.first().map_or(true, |s| now - s.hb <= SILENT + SLACK) {
            self.add_sentinel();
            std::thread::sleep(Duration::from_millis(1100));
            for g in &mut self.groups {
                g.may_check(now);
            }
            return;
        }
        // the follower speaks up again; it leads after the next check
        let mut st = self.sentinels[0].svs[usize::from(self.sentinels[0].svs[0].leader)];
        let end = Instant::now() + Duration::from_secs(20);
        let mut first = true;
        loop {
            let q = beat_req(&st);
            let o = self.cs[0].cmd(&q);
            match beat_answer(&o) {
                Ok(Some(s)) => st = s,
                Ok(None) => (),
                Err(e) => return self.ctx.violation(&format!("heartbeat: {}", e), &self.pd.log_tail()),
            }
            if st.leader && !first {
                break;
            }
            if st.leader {
                // it already led: this one tells nothing
                self.sentinels[0].hb = now;
                return self.settle();
            }
            first = false;
            if Instant::now() > end {
                return self.ctx.violation(
                    "a live follower is not promoted within 20 s although its leader is silent",
                    &format!("{}; clock {} ms after the leader's last heartbeat", st.show(), now - self.sentinels[0].hb),
                );
            }
            std::thread::sleep(Duration::from_millis(4));
        }
        let s = &mut self.sentinels[0];
        s.hb = now;
        for i in 0..2 {
            s.svs[i].leader = s.svs[i].id == st.id;
            s.svs[i].cur = st.cur;
        }
        self.settled += 1;
        for g in &mut self.groups {
            g.must_check(now);
        }
    }
    fn register(&mut self, g: usize) {
        let (a, f) = (any_addr(&mut self.r), any_addr(&mut self.r));
        let id = self.ids[g];
        let o = self.client().cmd(&init_req(id, a, f));
        let now = self.now;
        let t = now - self.t0;
        let s = match init_answer(&o) {
            Ok(Some(s)) => s,
            e => {
                self.groups[g].note(format!("{:>7} register -> {:?}", t, e));
                return self.bad(g, "a registration in an existing group gets no status");
            }
        };
        let gr = &mut self.groups[g];
        gr.note(format!("{:>7} register {} {} -> {}", t, a, f, s.show()));
        gr.may_check(now);
        if gr.known.iter().any(|k| k.id == s.id) {
            return self.bad(g, "the identity of a server is given to another one");
        }
        if s.group != id {
            return self.bad(g, "a server is registered in another group");
        }
        let info = Info { id: s.id, server: a, fwd: f };
        let mut next = HashSet::new();
        for st in &gr.states {
            let mut st = st.clone();
            let leader = !st.svs.iter().any(|s| s.leader);
            st.svs.push(Sv { info, hb: now, join: now, leader });
            if leader {
                st.cur = Some(info);
            }
            if st.status(st.svs.len() - 1) == s {
                next.insert(st);
            }
        }
        if next.is_empty() {
            let w: Vec<String> = gr.states.iter().map(|s| format!("{:?}", s)).collect();
            gr.note(format!("possible before: {}", w.join("\n  or ")));
            return self.bad(g, "a registration is answered with a wrong role or leader");
        }
        gr.states = next;
        gr.mute.push(0);
        gr.known.push(s);
        if s.leader {
            gr.leaders.insert(s.id);
        }
    }
    /// a heartbeat of server `i` which reports `st`
    fn beats(&mut self, batch: &[(usize, usize, Status)]) {
        let reqs: Vec<_> = batch.iter().map(|(_, _, s)| beat_req(s)).collect();
        let outs = self.client().pipeline(&reqs);
        if outs.len() < reqs.len() {
            return self.ctx.violation("heartbeats are not all answered", &format!("{:?}\n{}", outs.last(), self.pd.log_tail()));
        }
        for ((g, i, st), o) in batch.iter().zip(&outs) {
            self.beat_done(*g, *i, st, o);
        }
    }
    fn beat_done(&mut self, g: usize, i: usize, st: &Status, o: &Out) {
        let now = self.now;
        let t = now - self.t0;
        let a = match beat_answer(o) {
            Ok(a) => a,
            Err(e) => {
                self.groups[g].note(format!("{:>7} heartbeat {} -> {}", t, st.show(), e));
                return self.bad(g, "a heartbeat gets no proper answer");
            }
        };
        let gr = &mut self.groups[g];
        gr.note(format!("{:>7} heartbeat {} -> {}", t, st.show(), a.map_or("nothing new".into(), |s| s.show())));
        gr.may_check(now);
        let mut next = HashSet::new();
        for s in &gr.states {
            let mut s = s.clone();
            s.svs[i].hb = now;
            let real = s.status(i);
            if a == (if real == *st { None } else { Some(real) }) {
                next.insert(s);
            }
        }
        if next.is_empty() {
            let w: Vec<String> = gr.states.iter().map(|s| format!("{} [{:?}]", s.status(i).show(), s)).collect();
            gr.note(format!("possible before: {}", w.join("\n  or ")));
            return self.bad(g, "a heartbeat is answered with a status the group cannot have");
        }
        gr.states = next;
        if let Some(s) = a {
            gr.known[i] = s;
        } else {
            gr.known[i] = *st;
        }
        if gr.known[i].leader {
            gr.leaders.insert(gr.known[i].id);
        }
        self.ctx.eval(format!("{} {:?} {:?}", g, st, a).as_bytes());
    }
    /// requests that must not change anything
    fn noise(&mut self) {
        let made = self.made;
        match self.r.below(6) {
            0 | 1 => {
                let id = *self.r.pick(&[0, made + 1, made + 7, u64::MAX, 1 << 32]);
                let (a, f) = (any_addr(&mut self.r), any_addr(&mut self.r));
                let o = self.client().cmd(&init_req(id, a, f));
                match init_answer(&o) {
                    Ok(None) => (),
                    e => self.ctx.violation(&format!("registration in group {} of {} groups: {:?}", id, made, e), ""),
                }
            }
            2 | 3 => {
                let g = self.r.below(self.groups.len());
                let mut st = self.groups[g].known.first().copied().unwrap_or(Status { id: 1, group: 0, leader: false, cur: None });
                match self.r.below(3) {
                    0 => st.group = *self.r.pick(&[0, made + 1, u64::MAX]),
                    1 => st.id = *self.r.pick(&[0, 1000, u64::MAX]),
                    _ => {
                        st.group = made + 1;
                        st.id = 1;
                    }
                }
                let o = self.client().cmd(&beat_req(&st));
                match beat_answer(&o) {
                    Ok(None) => (),
                    e => self.ctx.violation(&format!("heartbeat of an unregistered server ({}): {:?}", st.show(), e), ""),
                }
            }
            _ => {
                // garbage on a connection of its own
                let Ok(mut c) = Client::connect(self.pd.addr) else { return };
                let g = self.r.below(self.groups.len());
                let mut q = match self.groups[g].known.first() {
                    Some(st) => beat_req(st),
                    None => init_req(self.ids[g], any_addr(&mut self.r), any_addr(&mut self.r)),
                };
                let n = q[1].len();
                match self.r.below(5) {
                    0 => q[1].truncate(self.r.below(n.min(12))),
                    1 => q[1] = {
                        let k = self.r.below(12);
                        self.r.bytes(k)
                    },
                    2 => q.truncate(1),
                    3 => q[1].clear(),
                    // a role that does not exist
                    _ if q[0] == b("pd_sever_heartbeat") => q[1][16] = 7,
                    // an address of no kind
                    _ => q[1][8] = 9,
                }
                let o = c.cmd(&q);
                if !matches!(&o, Out::Reply(Reply::Err(_)) | Out::Closed) {
                    self.ctx.violation(&format!("{} is answered with {}", esc_cmd(&q), o.show()), "");
                }
                let mut c2 = match Client::connect(self.pd.addr) {
                    Ok(c) => c,
                    Err(e) => return self.ctx.violation(&format!("after {}: {}", esc_cmd(&q), e), &self.pd.log_tail()),
                };
                let raw: &[u8] = self.r.pick(&[&b"*2\r\n$13\r\npd_sever_init\r\n$900\r\nabc"[..], b"*-1\r\n", b"\r\n", b"*1\r\n:5\r\n", b"*0\r\n", b"\xff\xff"]);
                let _ = c2.send_raw(raw);
                if self.r.chance(1, 2) {
                    reset_on_close(&c2.stream);
                }
            }
        }
        self.ctx.count("requests that must change nothing", 1);
    }
    /// after a settled check every server is asked: one leader at most, the same for all
    fn census(&mut self) {
        let n = self.groups.len();
        let g = self.r.below(n);
        if self.groups[g].known.is_empty() {
            return;
        }
        let mut all = vec![];
        // each in turn, but silent ones stay silent: only groups where all speak
        if self.groups[g].mute.iter().any(|m| *m > 0) {
            return;
        }
        for i in 0..self.groups[g].known.len() {
            let mut st = self.groups[g].known[i];
            st.leader = !st.leader;
            let o = self.client().cmd(&beat_req(&st));
            self.beat_done(g, i, &st, &o);
            all.push(self.groups[g].known[i]);
        }
        let leaders: Vec<_> = all.iter().filter(|s| s.leader).map(|s| s.id).collect();
        if leaders.len() > 1 {
            self.bad(g, &format!("servers {:?} of one group are leaders at once", leaders));
        }
        self.ctx.count("groups asked as a whole", 1);
    }
    fn step(&mut self, calm: bool) {
        let d = if calm {
            *self.r.pick(&[100, 500, 1000, 1000, 1900])
        } else {
            *self.r.pick(&[100, 400, 900, 1000, 1000, 1000, 1500, 2000, 2900, 3100, 5000])
        };
        self.set_clock(self.now + d);
        // some speak up, or join, before the next survival check notices how late it is
        for g in 0..self.groups.len() {
            if self.ctx.violated() {
                return;
            }
            let n = self.groups[g].known.len();
            if n > 0 && n < 6 && self.r.chance(1, 15) {
                self.register(g);
                self.ctx.count("registrations before the survival check", 1);
            } else if n > 0 && self.r.chance(1, 15) {
                let i = self.r.below(n);
                let st = self.groups[g].known[i];
                self.beats(&[(g, i, st)]);
            }
        }
        self.settle();
        if self.ctx.violated() {
            return;
        }
        let mut batch = vec![];
        for g in 0..self.groups.len() {
            if self.ctx.violated() {
                return;
            }
            let n = self.groups[g].known.len();
            if n < 6 && self.r.chance(1, if n < 2 { 2 } else { 12 }) {
                self.register(g);
                if self.ctx.violated() {
                    return;
                }
            }
            let mut order: Vec<usize> = (0..self.groups[g].known.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, self.r.below(i + 1));
            }
            for i in order {
                let gr = &mut self.groups[g];
                if gr.mute[i] > 0 {
                    gr.mute[i] -= 1;
                    continue;
                }
                let lead = gr.known[i].leader;
                if self.r.chance(1, if calm { 60 } else if lead { 7 } else { 12 }) {
                    gr.mute[i] = 1 + self.r.below(6) as u32;
                    continue;
                }
                let mut st = gr.known[i];
                if self.r.chance(1, 6) {
                    match self.r.below(5) {
                        0 => st.leader = !st.leader,
                        1 => st.cur = None,
                        2 => {
                            if let Some(c) = &mut st.cur {
                                c.fwd = any_addr(&mut self.r);
                            }
                        }
                        3 => {
                            if let Some(c) = &mut st.cur {
                                c.server = any_addr(&mut self.r);
                            }
                        }
                        _ => {
                            if let Some(c) = &mut st.cur {
                                c.id += 1;
                            }
                        }
                    }
                }
                batch.push((g, i, st));
            }
            if batch.len() >= 48 {
                let b = std::mem::take(&mut batch);
                self.beats(&b);
            }
        }
        let b = std::mem::take(&mut batch);
        self.beats(&b);
        for _ in 0..6 {
            if !self.ctx.violated() {
                self.census();
            }
        }
    }
}

fn drive(ctx: &Ctx, r: Rng, until: Instant, groups: usize, calm: bool, noise: bool) {
    let pd = match Pd::start(&ctx.bins, true) {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(&e),
    };
    let t0 = now_ms() / 100 * 100;
    pd.clock.as_ref().unwrap().freeze(t0);
    let mut cs = vec![];
    for _ in 0..5 {
        match Client::connect(pd.addr) {
            Ok(c) => cs.push(c),
            Err(e) => return ctx.inconclusive(&e.to_string()),
        }
    }
    let mut d = Drive { ctx, pd, cs, now: t0, t0, groups: vec![], made: 0, ids: vec![], sentinels: vec![], settled: 0, r };
    for i in 0..groups {
        d.add_group();
        if i % 20 == 0 {
            d.add_sentinel();
        }
    }
    d.set_clock(t0 + 3100);
    let mut steps = 0;
    while Instant::now() < until && !ctx.violated() {
        d.step(calm);
        steps += 1;
        if noise {
            for _ in 0..40 {
                if !ctx.violated() {
                    d.noise();
                }
            }
        }
        if d.r.chance(1, 3) {
            d.add_group();
        }
        if !d.pd.alive() {
            return ctx.violation("the placement driver died", &d.pd.log_tail());
        }
    }
    ctx.count("clock steps", steps);
    ctx.count("survival checks known to have run", d.settled);
    ctx.count("groups", d.groups.len() as u64);
    ctx.count("servers registered", d.groups.iter().map(|g| g.known.len() as u64).sum());
    ctx.count("changes of leader seen", d.groups.iter().map(|g| g.leaders.len().saturating_sub(1) as u64).sum());
    ctx.max("most possible states of a group", d.groups.iter().map(|g| g.states.len() as u64).max().unwrap_or(0));
    if let Some(g) = d.groups.iter().max_by_key(|g| g.leaders.len()) {
        let _ = g.any();
        let n = g.log.len().saturating_sub(8);
        ctx.sample(g.log[n..].join(" | "));
    }
}

/// everybody at once, in real time: unique identities, one leader, nobody replaced
fn rush(ctx: &Ctx, r: &mut Rng) {
    let delay = *r.pick(&[None, Some((300, 400)), Some((50, 5000))]);
    let pd = match Pd::start_with(&ctx.bins, false, delay) {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(&e),
    };
    let threads = 2 + r.below(7);
    let per = 1 + r.below(6);
    // groups are created while others register
    let got: Vec<Vec<(u64, Status, SocketAddr)>> = par(threads, |t| {
        let mut r = r.fork(t as u64 + 1);
        let mut v = vec![];
        let Ok(mut c) = Client::connect(pd.addr) else { return v };
        let mut made = 0u64;
        for i in 0..per * 8 {
            if i % 8 == 0 {
                let o = c.cmd(&group_req());
                if !o.is_ok() {
                    ctx.violation(&format!("a group is not created: {}", o.show()), "");
                }
                made += 1;
            } else {
                // this many exist for certain
                let g = 1 + r.below(made as usize) as u64;
                let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, t as u8, 0, 0)), i as u16);
                let o = c.cmd(&init_req(g, a, a));
                match init_answer(&o) {
                    Ok(Some(s)) if s.group == g => v.push((g, s, a)),
                    e => ctx.violation(&format!("registration in group {}, of {} or more groups: {:?}", g, made, e), &pd.log_tail()),
                }
            }
        }
        v
    });
    let total = (threads * per) as u64;
    let mut by: BTreeMap<u64, Vec<(Status, SocketAddr)>> = BTreeMap::new();
    for (g, s, a) in got.into_iter().flatten() {
        by.entry(g).or_default().push((s, a));
    }
    let Ok(mut c) = Client::connect(pd.addr) else {
        return ctx.violation("the placement driver accepts no connection any more", &pd.log_tail());
    };
    // exactly the groups that were created exist
    for g in [total, total + 1] {
        let o = c.cmd(&init_req(g, local(9), local(9)));
        match (init_answer(&o), g <= total) {
            (Ok(Some(s)), true) => by.entry(g).or_default().push((s, local(9))),
            (Ok(None), false) => (),
            (e, _) => ctx.violation(&format!("registration in group {} of {}: {:?}", g, total, e), ""),
        }
    }
    for (g, v) in &by {
        let ids: BTreeSet<u64> = v.iter().map(|(s, _)| s.id).collect();
        let show = || v.iter().map(|(s, a)| format!("{} registered with {}", s.show(), a)).collect::<Vec<_>>().join("\n");
        if ids.len() != v.len() {
            ctx.violation(&format!("two servers of group {} have the same identity", g), &show());
        }
        let leaders: Vec<_> = v.iter().filter(|(s, _)| s.leader).collect();
        if leaders.len() != 1 {
            ctx.violation(&format!("group {} has {} leaders", g, leaders.len()), &show());
            continue;
        }
        let (l, a) = leaders[0];
        let want = Some(Info { id: l.id, server: *a, fwd: *a });
        if v.iter().any(|(s, _)| s.cur != want) {
            ctx.violation(&format!("the servers of group {} are told different leaders", g), &show());
        }
        ctx.eval(format!("{} {} {}", threads, v.len(), l.id).as_bytes());
        ctx.count("concurrent registrations", v.len() as u64);
    }
    // all of them keep speaking at once: nothing changes
    let all: Vec<Status> = by.values().flatten().map(|(s, _)| *s).collect();
    let worst = AtomicU64::new(0);
    par(threads, |t| {
        let Ok(mut c) = Client::connect(pd.addr) else { return };
        let mut last: BTreeMap<usize, Instant> = BTreeMap::new();
        let end = Instant::now() + Duration::from_millis(1500);
        while Instant::now() < end && !ctx.violated() {
            for (i, s) in all.iter().enumerate().filter(|(i, _)| i % threads == t) {
                let sent = Instant::now();
                let o = c.cmd(&beat_req(s));
                if let Some(p) = last.insert(i, sent) {
                    worst.fetch_max(p.elapsed().as_millis() as u64, Ordering::Relaxed);
                }
                match beat_answer(&o) {
                    Ok(None) => (),
                        _ if worst.load(Ordering::Relaxed) > 2500 => return ctx.count("not judged: the machine stalled", 1),
                    e => return ctx.violation(&format!("the status of {} changed under steady heartbeats: {:?}", s.show(), e), ""),
                }
                ctx.count("steady heartbeats", 1);
            }
        }
    });
}

/// at the same moment, again and again: the first servers of a group register, and groups are created
fn volleys(ctx: &Ctx, r: &mut Rng, rounds: usize) {
    let delay = *r.pick(&[None, None, Some((300, 400))]);
    let pd = match Pd::start_with(&ctx.bins, false, delay) {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(&e),
    };
    let n = 4 + r.below(5);
    // among so many groups that finding one takes its time
    let crowd = *r.pick(&[0usize, 20_000, 60_000]) / n / 200 * n * 200;
    let gate = std::sync::Barrier::new(n);
    let mut cs: Vec<Client> = vec![];
    for _ in 0..n {
        match Client::connect(pd.addr) {
            Ok(c) => cs.push(c),
            Err(e) => return ctx.inconclusive(&e.to_string()),
        }
    }
    let cs: Vec<Mutex<Client>> = cs.into_iter().map(Mutex::new).collect();
    let got: Vec<Vec<Status>> = par(n, |t| {
        let mut c = cs[t].lock().unwrap();
        let mut v = vec![];
        gate.wait();
        for _ in 0..crowd / n / 200 {
            let qs = vec![group_req(); 200];
            if c.pipeline(&qs).iter().filter(|o| o.is_ok()).count() != 200 {
                ctx.violation("a group is not created", &pd.log_tail());
            }
        }
        gate.wait();
        for k in 0..rounds {
            // every round creates n groups ...
            gate.wait();
            let o = c.cmd(&group_req());
            if !o.is_ok() {
                ctx.violation(&format!("a group is not created: {}", o.show()), "");
            }
            gate.wait();
            // ... and all register first thing in the one created last, the number of all
            let g = (crowd + n * (k + 1)) as u64;
            let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 1 + t as u8, 0, 1)), 1 + k as u16);
            gate.wait();
            let o = c.cmd(&init_req(g, a, a));
            match init_answer(&o) {
                Ok(Some(s)) if s.group == g => v.push(s),
                e => ctx.violation(&format!("registration in group {} of {}: {:?}", g, g, e), &pd.log_tail()),
            }
        }
        v
    });
    if ctx.violated() {
        return;
    }
    for k in 0..rounds {
        let all: Vec<Status> = got.iter().map(|v| v[k]).collect();
        let show = || all.iter().map(|s| s.show()).collect::<Vec<_>>().join("\n");
        let ids: BTreeSet<u64> = all.iter().map(|s| s.id).collect();
        if ids.len() != n {
            return ctx.violation("two servers which registered at the same moment have the same identity", &show());
        }
        let leaders: Vec<u64> = all.iter().filter(|s| s.leader).map(|s| s.id).collect();
        if leaders.len() != 1 || all.iter().any(|s| s.cur.map(|c| c.id) != Some(leaders[0])) {
            return ctx.violation(&format!("{} servers register at the same moment as the first of their group: {} leaders", n, leaders.len()), &show());
        }
        ctx.eval(format!("volley {} {}", n, leaders[0]).as_bytes());
    }
    ctx.count("registrations at the same moment", (rounds * n) as u64);
    // exactly as many groups as were created
    let c = &mut *cs[0].lock().unwrap();
    let o = c.cmd(&init_req((crowd + rounds * n) as u64 + 1, local(9), local(9)));
    if init_answer(&o) != Ok(None) {
        ctx.violation("a group exists which nobody created", &o.show());
    }
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("one evaluation: one answer of the real placement driver, judged by the set of states a reference state machine says the group may be in (or one group of a concurrent registration rush); distinct: group, report and answer differ");
    ctx.assume("roles change only in the survival check, at registration and never otherwise");
    let until = ctx.deadline(17, 600);
    par(6, |t| {
        let mut r = ctx.rng(t as u64);
        if t < 3 {
            drive(ctx, r, until, 60 + 80 * t, t == 0, true);
        } else {
            while Instant::now() < until && !ctx.violated() {
                rush(ctx, &mut r);
                ctx.count("rushes", 1);
                if !ctx.violated() {
                    volleys(ctx, &mut r, 400);
                }
            }
        }
    });
}

/// groups in real time: leaders that speak every now and then are never replaced, silent ones soon
fn real_time(ctx: &Ctx, r: &mut Rng, secs: u64) {
    let pd = match Pd::start(&ctx.bins, false) {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(&e),
    };
    let n = 40;
    let mut c = Client::connect(pd.addr).expect("pd");
    for _ in 0..n {
        let _ = c.cmd(&group_req());
    }
    par(n, |g| {
        let mut r = r.fork(g as u64);
        let Ok(mut c) = Client::connect(pd.addr) else { return };
        let mut reg = || {
            let o = c.cmd(&init_req(g as u64 + 1, any_addr(&mut r), any_addr(&mut r)));
            init_answer(&o).ok().flatten()
        };
        let mut st: Vec<Status> = vec![];
        for _ in 0..3 {
            match reg() {
                Some(s) => st.push(s),
                None => return ctx.violation("a registration gets no status", ""),
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        let end = Instant::now() + Duration::from_secs(secs);
        let mut log = vec![format!("leader {}", st[0].id)];
        let t0 = Instant::now();
        // [0] leads; the gaps between its heartbeats stay below the timeout
        let mut sent = Instant::now();
        let mut due = Instant::now();
        while Instant::now() < end {
            if ctx.violated() {
                return;
            }
            if Instant::now() >= due {
                let s = Instant::now();
                let o = c.cmd(&beat_req(&st[0]));
                let a = beat_answer(&o);
                if sent.elapsed() > Duration::from_millis(2900) {
                    return; // the machine was too busy to judge this group
                }
                log.push(format!("{} ms: heartbeat of the leader: {:?}", t0.elapsed().as_millis(), a));
                if a != Ok(None) {
                    return ctx.violation("a leader that speaks is replaced", &log.join("\n"));
                }
                sent = s;
                due = s + Duration::from_millis(*r.pick(&[50, 700, 1000, 2000, 2500]));
            }
            for s in &st[1..] {
                let o = c.cmd(&beat_req(s));
                let a = beat_answer(&o);
                if sent.elapsed() > Duration::from_millis(2900) {
                    return;
                }
                if a != Ok(None) {
                    return ctx.violation("a leader that speaks is replaced", &format!("{}\na follower is told {:?}", log.join("\n"), a));
                }
            }
            std::thread::sleep(Duration::from_millis(100));
        }
        // silence
        let mut cur = st[1];
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let asked = sent.elapsed();
            let o = c.cmd(&beat_req(&cur));
            let _ = c.cmd(&beat_req(&st[2]));
            match beat_answer(&o) {
                Ok(None) => (),
                Ok(Some(s)) => {
                    cur = s;
                    if sent.elapsed() < Duration::from_millis(2900) {
                        return ctx.violation("a leader is replaced before the timeout", &format!("{}\n{}", log.join("\n"), s.show()));
                    }
                    if s.leader && s.cur.map(|c| c.id) == Some(s.id) {
                        ctx.max("slowest failover in real time, ms", asked.as_millis() as u64);
                        break;
                    }
                    return ctx.violation(
                        "not the longest-joined live follower is promoted",
                        &format!("{}\nserver {} is told {}", log.join("\n"), cur.id, s.show()),
                    );
                }
                Err(e) => return ctx.violation(&format!("heartbeat: {}", e), ""),
            }
            if asked > Duration::from_secs(15) {
                return ctx.violation("a silent leader is not replaced within 15 s although a follower lives", &log.join("\n"));
            }
        }
        // the former leader returns
        let o = c.cmd(&beat_req(&st[0]));
        match beat_answer(&o) {
            Ok(Some(s)) if !s.leader && s.cur.map(|c| c.id) == Some(cur.id) => (),
            a => return ctx.violation(&format!("a returning leader is not told to follow the new one: {:?}", a), &log.join("\n")),
        }
        ctx.eval(format!("real {}", log.len()).as_bytes());
        ctx.count("failovers in real time", 1);
    });
}

// ---- a TCP relay whose link can be cut

pub struct Relay {
    pub addr: SocketAddr,
    /// no new connections, existing ones closed
    down: Arc<AtomicBool>,
    /// bytes are held back
    held: Arc<AtomicBool>,
    open: Arc<Mutex<Vec<TcpStream>>>,
    quit: Arc<AtomicBool>,
    pub passed: Arc<AtomicU64>,
}

impl Relay {
    pub fn start(to: SocketAddr) -> Relay {
        let l = std::net::TcpListener::bind(("127.0.0.1", 0)).expect("relay");
        let addr = l.local_addr().expect("relay");
        let r = Relay {
            addr,
            down: Arc::default(),
            held: Arc::default(),
            open: Arc::default(),
            quit: Arc::default(),
            passed: Arc::default(),
        };
        let (down, held, open, quit, passed) = (r.down.clone(), r.held.clone(), r.open.clone(), r.quit.clone(), r.passed.clone());
        std::thread::spawn(move || {
            for a in l.incoming() {
                if quit.load(Ordering::SeqCst) {
                    return;
                }
                let Ok(a) = a else { continue };
                if down.load(Ordering::SeqCst) {
                    reset_on_close(&a);
                    continue;
                }
                let Ok(z) = TcpStream::connect(to) else { continue };
                let _ = a.set_nodelay(true);
                let _ = z.set_nodelay(true);
                for (mut x, mut y) in [(a.try_clone(), z.try_clone()), (z.try_clone(), a.try_clone())]
                    .into_iter()
                    .filter_map(|(x, y)| Some((x.ok()?, y.ok()?)))
                {
                    let (held, passed) = (held.clone(), passed.clone());
                    std::thread::spawn(move || {
                        use std::io::{Read, Write};
                        let mut b = vec![0u8; 1 << 16];
                        while let Ok(n) = x.read(&mut b) {
                            while held.load(Ordering::SeqCst) {
                                std::thread::sleep(Duration::from_millis(5));
                            }
                            if n == 0 || y.write_all(&b[..n]).is_err() {
                                break;
                            }
                            passed.fetch_add(n as u64, Ordering::Relaxed);
                        }
                        let _ = x.shutdown(std::net::Shutdown::Both);
                        let _ = y.shutdown(std::net::Shutdown::Both);
                    });
                }
                let mut o = open.lock().unwrap();
                if o.len() > 64 {
                    o.drain(..32);
                }
                o.push(a);
                o.push(z);
                if down.load(Ordering::SeqCst) {
                    for s in o.drain(..) {
                        let _ = s.shutdown(std::net::Shutdown::Both);
                    }
                }
            }
        });
        r
    }
    pub fn cut(&self) {
        for s in self.open.lock().unwrap().drain(..) {
            let _ = s.shutdown(std::net::Shutdown::Both);
        }
    }
    /// breaks one connection
    pub fn cut_one(&self, n: usize) {
        let mut o = self.open.lock().unwrap();
        if !o.is_empty() {
            let i = n % o.len();
            let _ = o.swap_remove(i).shutdown(std::net::Shutdown::Both);
        }
    }
    pub fn down(&self, d: bool) {
        self.down.store(d, Ordering::SeqCst);
        if d {
            self.cut();
        }
    }
    pub fn hold(&self, h: bool) {
        self.held.store(h, Ordering::SeqCst);
    }
}

impl Drop for Relay {
    fn drop(&mut self) {
        self.hold(false);
        self.quit.store(true, Ordering::SeqCst);
        self.down(true);
        let _ = TcpStream::connect(self.addr);
    }
}

/// a member of a group that only watches: it joins last
pub struct Watcher {
    c: Client,
    pub st: Status,
}

impl Watcher {
    pub fn join(pd: SocketAddr, group: u64) -> Result<Watcher, String> {
        let mut c = Client::connect(pd).map_err(|e| e.to_string())?;
        let o = c.cmd(&init_req(group, local(1), local(1)));
        let st = init_answer(&o)?.ok_or("refused")?;
        Ok(Watcher { c, st })
    }
    pub fn look(&mut self) -> Result<Option<Info>, String> {
        let o = self.c.cmd(&beat_req(&self.st));
        if let Some(s) = beat_answer(&o)? {
            self.st = s;
        }
        Ok(self.st.cur)
    }
    /// until the leader is this one
    pub fn leader_is(&mut self, server: SocketAddr, t: Duration) -> Result<(), String> {
        let end = Instant::now() + t;
        loop {
            let l = self.look()?;
            if l.map(|l| l.server) == Some(server) {
                return Ok(());
            }
            if Instant::now() > end {
                return Err(format!("after {:?} the leader is still {:?}", t, l));
            }
            std::thread::sleep(Duration::from_millis(100));
        }
    }
}

/// real servers: healthy ones stay, failing ones are replaced, returning ones follow
fn real_servers(ctx: &Ctx, r: &mut Rng, way: usize) {
    let pd = match Pd::start(&ctx.bins, false) {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(&e),
    };
    let _ = Client::connect(pd.addr).expect("pd").cmd(&group_req());
    let mut relays = vec![];
    let mut srvs: Vec<Server> = vec![];
    for _ in 0..3 {
        let relay = Relay::start(pd.addr);
        let s = match Server::start(&ctx.bins, &Opts { pd: Some((relay.addr, 1)), ..Default::default() }) {
            Ok(s) => s,
            Err(e) => return ctx.inconclusive(&e),
        };
        relays.push(relay);
        srvs.push(s);
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut w = match Watcher::join(pd.addr, 1) {
        Ok(w) => w,
        Err(e) => return ctx.violation(&format!("registration: {}", e), ""),
    };
    if w.st.cur.map(|l| l.server) != Some(srvs[0].addr) {
        return ctx.violation(&format!("the first server does not lead: {:?}", w.st), "");
    }
    // healthy, with load and broken links to the placement driver
    let healthy = Duration::from_millis(4500 + r.below(2500) as u64);
    let t = Instant::now();
    let mut c = srvs[0].client();
    let mut cut = false;
    let names = ["killed", "stopped and resumed", "cut off from the placement driver"];
    while t.elapsed() < healthy {
        for i in 0..200 {
            let _ = c.cmd(&[b("set"), format!("k{}", i % 50).into_bytes(), b("v")]);
        }
        if !cut && t.elapsed() > Duration::from_millis(1200) && r.chance(1, 6) {
            cut = true;
            relays[r.below(3)].cut();
            ctx.count("broken links to the placement driver", 1);
        }
        match w.look() {
            Ok(Some(l)) if l.server == srvs[0].addr => (),
            _ if stalled(t) > Duration::from_millis(300) => return ctx.count("not judged: the machine stalled", 1),
            e => {
                return ctx.violation(
                    &format!("a healthy leader is replaced{}", if cut { " after its link to the placement driver broke once" } else { "" }),
                    &format!("{:?} after {:?}; log of the leader: {}", e, t.elapsed(), srvs[0].log_tail()),
                )
            }
        }
        std::thread::sleep(Duration::from_millis(60));
    }
    // a dead server that joined earlier must not be promoted
    let dead_first = r.chance(1, 2);
    if dead_first {
        srvs[1].stop();
        std::thread::sleep(Duration::from_millis(3600));
    }
    match way {
        0 => srvs[0].stop(),
        1 => srvs[0].signal(SIGSTOP),
        _ => relays[0].down(true),
    }
    let t = Instant::now();
    let heir = if dead_first { 2 } else { 1 };
    if let Err(e) = w.leader_is(srvs[heir].addr, Duration::from_secs(15)) {
        return ctx.violation(
            &format!("a leader that was {} is not replaced by the longest-joined live follower: {}", names[way], e),
            &srvs.iter().map(|s| s.addr.to_string()).collect::<Vec<_>>().join(", "),
        );
    }
    ctx.max("slowest failover of real servers, ms", t.elapsed().as_millis() as u64);
    if t.elapsed() < Duration::from_millis(1000) {
        return ctx.violation(&format!("a leader was replaced {:?} after it was {}", t.elapsed(), names[way]), "");
    }
    // back again
    if way == 1 {
        srvs[0].signal(SIGCONT);
    } else if way == 2 {
        relays[0].down(false);
    }
    let followers: Vec<usize> = (0..3).filter(|i| *i != heir && !(way == 0 && *i == 0) && !(dead_first && *i == 1)).collect();
    let mut c = srvs[heir].client();
    if !c.c("set new-era 1").is_ok() {
        return ctx.violation("the new leader does not serve writes", &srvs[heir].log_tail());
    }
    for i in followers {
        let mut c = srvs[i].client();
        if !wait_until(Duration::from_secs(20), || c.c("get new-era").reply().and_then(Reply::text) == Some(b("1"))) {
            return ctx.violation(
                &format!("server {} does not follow the new leader after the old one was {}", i, names[way]),
                &srvs[i].log_tail(),
            );
        }
    }
    // and the new leader stays
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(4000) {
        match w.look() {
            Ok(Some(l)) if l.server == srvs[heir].addr => (),
            _ if stalled(t) > Duration::from_millis(300) => return ctx.count("not judged: the machine stalled", 1),
            e => return ctx.violation(&format!("a healthy new leader is replaced: {:?}", e), &srvs[heir].log_tail()),
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    ctx.eval(format!("real servers {} {} {}", way, dead_first, cut).as_bytes());
    ctx.count(&format!("real leaders {}", names[way]), 1);
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("one evaluation: one answer of the real placement driver after a step of its frozen clock, judged by the set of states the group may be in; or one failover in real time, of scripted or of real servers; distinct: group, report and answer differ");
    ctx.assume("the failure timeout is 3000 ms; answers between 2950 and 3050 ms of silence are not judged");
    ctx.assume("promotion within 15 s of real time counts as bounded");
    let until = ctx.deadline(16, 600);
    par(9, |t| {
        let mut r = ctx.rng(t as u64);
        match t {
            0..=3 => drive(ctx, r, until, 200, false, false),
            4 => loop {
                real_time(ctx, &mut r, 4 + ctx.n(2, 10) as u64);
                if Instant::now() >= until || ctx.violated() || !ctx.thorough {
                    break;
                }
            },
            5 => drive(ctx, r, until, 100, true, false),
            _ => {
                let mut k = t - 6;
                loop {
                    real_servers(ctx, &mut r, k % 3);
                    k += 1;
                    if Instant::now() >= until || ctx.violated() || !ctx.thorough {
                        break;
                    }
                }
            }
        }
    });
    let _ = wire::ALL;
}
